/* The client side of the simulation: thin calls into the public API of JPStream.
   Compiled with the same instrumentation as JPStream itself. */
#include <malloc.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/time.h>
#include "path_processor.h"
#include "shim.h"

void* shim_pp_new(const char* path) { return createPathProcessor((char*)path); }
void shim_pp_free(void* pp) { freePathProcessor((PathProcessor*)pp); }
void* shim_train(void* pp, const char* file) { return collectDataConstraints((PathProcessor*)pp, (char*)file); }
void shim_ct_free(void* ct) { freeConstraintTable((ConstraintTable*)ct); }
void* shim_serial(void* pp, const char* file) { return serialRun((PathProcessor*)pp, (char*)file); }
void* shim_par(void* pp, const char* file, int n) { return parallelRun((PathProcessor*)pp, (char*)file, n); }
void* shim_opt(void* pp, const char* file, int n, void* ct) { return parallelRunOpt((PathProcessor*)pp, (char*)file, n, (ConstraintTable*)ct); }
int shim_out_size(void* o) { return getOutputSize((Output*)o); }
const char* shim_out_get(void* o, int i) { return getOutputElement((Output*)o, i); }
const void* shim_out_array(void* o) { return ((Output*)o)->element; }
void shim_out_free(void* o) { freeOutput((Output*)o); }

#ifdef SHIM_PLAIN
void* shim_internal(void* pp, const char* file, int n, void* ct, int mode) { return mode>=2 ? shim_serial(pp, file) : shim_opt(pp, file, n, ct); }
#else
/* the documented internal pipeline; mode 0: partitionFile, 1: loadInputStream+partitionInputStream,
   2: streaming automaton, 3: the same while it learns constraints, 4: the same on the successive pieces of a bounded load */
void* shim_internal(void* ppv, const char* file, int n, void* ct, int mode)
{
    PathProcessor* pp = (PathProcessor*)ppv;
    PredicateFilter pf;
    Output* out;
    if(mode>=2)
    {
        StreamingAutomaton* sa = (StreamingAutomaton*)malloc(sizeof(StreamingAutomaton));
        int pos = 0, pieces = 0;
        initStreamingAutomaton(sa, pp->query_automaton);
        while(mode==4 || pieces==0)
        {
            char* stream = mode==4 ? loadBoundedInputStream((char*)file, &pos) : loadInputStream((char*)file);
            if(stream==NULL) { if(mode==4 && pos>=0 && pieces>0) break; destroyStreamingAutomaton(sa); free(sa); return NULL; }
            executeAutomaton(sa, stream, mode==3 ? OPEN : CLOSE);
            free(stream);
            pieces++;
        }
        initPredicateFilter(&pf, sa->tuple_list, pp->query_context);
        out = generateFinalOutput(&pf);
        destroyPredicateFilter(&pf);
        if(mode==3) freeConstraintTable(sa->constraint_table);
        destroyStreamingAutomaton(sa);
        free(sa);
        return out;
    }
    char* stream = NULL;
    PartitionInfo pi;
    if(mode==0) pi = partitionFile((char*)file, n);
    else
    {
        stream = loadInputStream((char*)file);
        if(stream==NULL) return NULL;
        pi = partitionInputStream(stream, n);
    }
    if(pi.num_chunk==0) { freeInputChunks(pi); if(stream) free(stream); return NULL; }
    ParallelAutomata* pa = (ParallelAutomata*)malloc(sizeof(ParallelAutomata));
    initParallelAutomata(pa, pp->query_automaton);
    executeParallelAutomata(pa, pi, (ConstraintTable*)ct);
    initPredicateFilter(&pf, pa->tuple_list, pp->query_context);
    out = generateFinalOutput(&pf);
    destroyPredicateFilter(&pf);
    freeInputChunks(pi);
    pa->finish_flag = FINISH;
    destroyParallelAutomata(pa);
    free(pa);
    if(stream) free(stream);
    return out;
}

#endif
void* shim_ctx_new(void)
{
    StreamingContext* c = (StreamingContext*)malloc(sizeof(StreamingContext));
    initStreamingContext(c);
    return c;
}
void* shim_feed(void* ctx, void* pp, const char* text, int mode, int n, void* ct)
{
    if(mode==0) return serialPartialRun((PathProcessor*)pp, (char*)text, (StreamingContext*)ctx);
    if(mode==1) return parallelPartialRun((PathProcessor*)pp, (char*)text, n, (StreamingContext*)ctx);
    return parallelPartialRunOpt((PathProcessor*)pp, (char*)text, n, (ConstraintTable*)ct, (StreamingContext*)ctx);
}
void shim_ctx_del(void* ctx)
{
    destroyStreamingContext((StreamingContext*)ctx);
    free(ctx);
}

char** shim_partmem(const char* text, int n, int* num)
{
    PartitionInfo pi = partitionInputStream((char*)text, n);
    *num = pi.num_chunk;
    return pi.stream;
}
char** shim_partfile(const char* file, int n, int* num)
{
    PartitionInfo pi = partitionFile((char*)file, n);
    *num = pi.num_chunk;
    return pi.stream;
}
void shim_part_free(char** s, int num)
{
    PartitionInfo pi;
    pi.stream = s;
    pi.num_chunk = num;
    freeInputChunks(pi);
}
char* shim_loadb(const char* file, int* pos) { return loadBoundedInputStream((char*)file, pos); }
char* shim_load(const char* file) { return loadInputStream((char*)file); }
char* shim_buf(unsigned long n) { return (char*)malloc(n); }
void shim_buf_free(char* p) { free(p); }
