import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['observe_at']=observe or ['the returned result list']
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
Q='JSONQuery/'
PAR=[Q+'parallel_automata_execution.h',Q+'worker_automaton.c',Q+'file_partition.c',Q+'path_processor.h',Q+'unit.h',Q+'multi_stack.h',Q+'tuple_list.h']
HOOK='JPSTREAM_SIM: the memory footprint is chosen per run'
T6='The tests run one small file with at most a few cores and one native schedule, and print rather than compare most answers'
p('C01','A parallel run gives exactly the serial answer',
 'For every document, every supported path query and every number of threads, the parallel run of a file returns the same sequence of result texts, in the same order, as the serial run of that file. This holds for every order and timing in which the threads execute.',
 ['schedules','inputs','configurations'],'every thread schedule, document, query and thread count from 1 to several times the number of useful chunks',
 T6+'; they sample neither schedules nor chunk boundaries.',PAR,
 [('chunks executed speculatively from every possible start state','worker_automaton.c executeWorkerAutomaton'),('merge of chunk results along the real state','parallel_automata_execution.h executeParallelAutomata'),('reprocessing of chunks whose assumptions failed','parallel_automata_execution.h')],
 [('start units / end units','speculated entry states and their final states and stacks','unit.h'),('tuple list','matches in document order','tuple_list.h')],hook=HOOK)
p('C02','Data constraints never change an answer',
 'A parallel run that uses a table of data constraints returns exactly the serial answer, whether the table was learned from the same file, from a file of a different shape, or is absent. Constraints may only change how much work is redone.',
 ['schedules','inputs','configurations'],'every pair of training and queried document, query, thread count and schedule',
 'The tests train and query the same file once; wrong speculation is never provoked.',[Q+'constraint.h',Q+'worker_automaton.c',Q+'parallel_automata_execution.h',Q+'streaming_automaton.c'],
 [('constraint collection','streaming_automaton.c / constraint.h'),('start states restricted by constraints','worker_automaton.c'),('validation and reprocessing at merge time','parallel_automata_execution.h')],hook=HOOK)
p('C03','Bounding memory does not change an answer',
 'A file larger than the memory bound is read and queried piece by piece, and the answer is the one an unbounded serial run gives, for every value of the bound and in serial, parallel and constraint-guided runs alike.',
 ['configurations','inputs','schedules'],'every memory bound from a few bytes up, every document, query, run mode and thread count',
 'The bound is a compile-time constant of 250 MB; no test input reaches a second piece.',[Q+'path_processor.h',Q+'streaming_automaton.c',Q+'parallel_automata_execution.h',Q+'lexing.c'],
 [('loading the next piece up to a token boundary','path_processor.h loadBoundedInputStream'),('state carried from piece to piece','path_processor.h StreamingContext')],hook=HOOK)
p('C04','A serial run returns exactly what the path denotes',
 'For every well-formed document and supported query (child, wildcard, descendant, index, index range, and filters over comparisons, existence, arithmetic and boolean connectives), the serial run returns the text of every matching value exactly as written, each once, in the order in which the values end in the document, and nothing else. Neither the size of the reads the storage delivers nor white space between tokens matters.',
 ['inputs','configurations','fault_sequences'],'every document and query of the supported language, every fragmentation of reads',
 'The tests use a handful of queries on one document and mostly check that something is printed.',[Q+'streaming_automaton.c',Q+'lexing.c',Q+'predicate.c',Q+'path_processor.h','DFABuilder/src/dfa_builder.cpp','JSONPathParser/jsonpath_evaluator.h'],
 [('two-stack automaton','streaming_automaton.c executeAutomaton'),('tokenisation','lexing.c'),('predicate filter','predicate.c generateFinalOutput'),('query compilation','dfa_builder.cpp buildJSONQueryDFA')],hook=HOOK)
p('C05','Feeding a stream in pieces gives the exact prefix after every piece',
 'After each partial run on a context, the result list holds exactly the matches that the part of the stream fed so far has completed, for any split of the stream before a string token, any mixture of piece sizes and thread counts, and any interleaving with partial runs on other contexts. After the last piece it is the answer for the whole stream.',
 ['histories','inputs','schedules'],'every sequence of pieces, serial, parallel and constraint-guided, on several interleaved contexts',
 'The tests feed at most one fixed split.',[Q+'path_processor.h',Q+'streaming_automaton.c',Q+'parallel_automata_execution.h',Q+'predicate.c'],
 [('serialPartialRun, parallelPartialRun, parallelPartialRunOpt','path_processor.h'),('pending partial values and array counters','streaming_automaton.c')],
 [('streaming context','automaton, stacks, pending values, filter state between pieces','path_processor.h StreamingContext')])
p('C06','Partitioning and bounded loading neither lose nor tear anything',
 'The chunks of an in-memory stream, of a file, and the successive pieces of a bounded load, put together, are exactly the input bytes; there are at most as many chunks as asked for, none is empty of text, and every cut lies directly before a string token outside any string. The reported positions match the pieces, and a piece exceeds the memory bound only up to the next such cut.',
 ['inputs','configurations','fault_sequences'],'every text, also with escapes, long strings and brackets inside strings, every number of chunks and bound, every fragmentation of reads',
 'The tests partition one file into a few chunks and never look at the bytes.',[Q+'file_partition.c',Q+'path_processor.h',Q+'lexing.c'],
 [('partitionFile, partitionInputStream','path_processor.h, file_partition.c'),('token scanner','lexing.c'),('loadBoundedInputStream','path_processor.h')],observe=['chunk texts and counts','piece texts and positions'],hook=HOOK)
p('C07','An I/O error never turns into a wrong answer',
 'When opening, seeking or reading a file fails at any point, a run either still returns the complete right answer or returns no result at all; it never returns a partial or wrong list, never crashes and never hangs. Once the faults stop, the same objects give the right answer again.',
 ['fault_sequences','inputs','configurations'],'every position, kind and duration of failing open, seek and read calls, in every run mode',
 'No test can make a read fail.',[Q+'path_processor.h',Q+'file_partition.c'],
 [('error checks in the loaders and the file partitioner','path_processor.h loadInputStream, loadBoundedInputStream, partitionFile'),('discarding incomplete output','path_processor.h serialRun, parallelRun, parallelRunOpt')],hook=HOOK)
p('C08','A refused thread costs time, never results',
 'When the system refuses to create some or all of the worker threads, a parallel run still returns the serial answer; no chunk is skipped and nothing blocks. This also holds when more threads are requested than exist.',
 ['fault_sequences','schedules','inputs'],'every subset of failing thread creations, every thread count and schedule',
 'Thread creation never fails in the tests.',[Q+'parallel_automata_execution.h',Q+'worker_automaton.c'],
 [('fallback when pthread_create fails','parallel_automata_execution.h executeParallelAutomata')])
p('C09','Running out of memory stops the run, it never corrupts it',
 'When an allocation fails at any point, the run either completes with the right answer, reports failure (no result object, or a null where a text would be), or stops at the failed allocation; it never delivers a wrong or shortened result list and never hangs.',
 ['fault_sequences','inputs'],'every single failing allocation, and every point from which all allocations fail, in every run mode',
 'Allocations never fail in the tests.',[Q+'tuple_list.h',Q+'output.h',Q+'utility.c',Q+'path_processor.h',Q+'unit.h'],
 [('allocation in list growth, text copies, stacks','output.h, tuple_list.h, multi_stack.h, utility.c')],observe=['process end','the returned result list'])
p('C10','Independent clients do not disturb each other',
 'Several threads that run queries at the same time, on the same or different files, with their own or a shared compiled query, each get exactly the answer they would get alone. Creating, using and releasing objects in one client never affects another.',
 ['schedules','histories','inputs'],'every interleaving of two or three client programs and of their worker threads',
 'The tests have one client.',[Q+'path_processor.h',Q+'streaming_automaton.c',Q+'parallel_automata_execution.h','JSONPathParser/parser_j.y','DFABuilder/src/dfa_builder.cpp'],
 [('no mutable state shared between runs','path_processor.h, streaming_automaton.c'),('reentrant path parser','parser_j.y')])
p('C11','No data races',
 'In any number of concurrent runs of any mode, no two threads touch the same memory, one of them writing, without an ordering between the accesses. Worker threads synchronise with the thread that merges their results.',
 ['schedules','inputs'],'every interleaving of clients and workers; races are judged by happens-before, so a schedule need not exhibit the damage',
 'A race that does no harm in the native schedule of a test stays invisible.',[Q+'parallel_automata_execution.h',Q+'worker_automaton.c',Q+'path_processor.h','DFABuilder/src'],
 [('workers own their chunk and units; merge only after join','parallel_automata_execution.h')],observe=['every memory access of the instrumented code'])
p('C12','The answer depends on the query and the document only',
 'Repeating the same operations on the same inputs gives byte-identical answers, whatever memory contained before, however the allocator lays out blocks, whatever the clock says, whatever locale the process has set, and however threads are scheduled. In particular nothing is read before it is written.',
 ['schedules','histories','fault_sequences'],'pairs of executions that differ in initial memory contents, heap layout, clock, locale and schedule only',
 'One test process sees one heap and mostly zeroed memory.',[Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'unit.h',Q+'multi_stack.h','DFABuilder/src/dfa_builder.cpp'],
 [('initialisation of automata, stacks, units and contexts','init functions of each header')])
p('C13','No access outside live memory',
 'Whatever well-formed inputs, malformed paths, thread counts, memory bounds and I/O or thread faults a run meets, it reads and writes only live memory inside the blocks it allocated, and releases each block at most once.',
 ['inputs','configurations','fault_sequences','schedules'],'every run mode on every well-formed document and supported query, also with malformed paths, faults and any order of releases',
 'An overrun inside malloc slack or a read of released memory passes a test.',[Q+'lexing.c',Q+'worker_automaton.c',Q+'streaming_automaton.c',Q+'output.h',Q+'tuple_list.h',Q+'file_partition.c','JSONPathParser/jsonpath_evaluator.h'],
 [('sizes of buffers and growth of lists','output.h, tuple_list.h, multi_stack.h, path_processor.h')],observe=['every memory access of the instrumented code'],hook=HOOK)
p('C14','Released runs leave nothing behind',
 'Repeating any run, with all returned objects released, does not grow the memory in use and leaves no file open, also when files cannot be opened or read and threads cannot be created.',
 ['histories','fault_sequences'],'every run mode repeated in cycles, with and without faults',
 'The tests end right after a run.',[Q+'path_processor.h',Q+'parallel_automata_execution.h',Q+'worker_automaton.c',Q+'streaming_automaton.c',Q+'output.h'],
 [('destroy and free functions, error paths','path_processor.h, parallel_automata_execution.h')],observe=['allocator','open files'],hook=HOOK)
p('C15','Every call returns',
 'Every call returns after work bounded by its input, under any schedule, with stalled threads, concurrent clients and any failing opens, reads, seeks and thread creations; no call deadlocks or spins. After the faults the same objects answer correctly.',
 ['schedules','fault_sequences','inputs'],'every schedule and fault sequence; a bound on executed steps and deadlock detection decide',
 'A test that passes has terminated on one schedule without faults.',[Q+'parallel_automata_execution.h',Q+'worker_automaton.c',Q+'path_processor.h',Q+'file_partition.c'],
 [('join of workers','parallel_automata_execution.h'),('loops that stop at the end of the input','path_processor.h, lexing.c')],observe=['end of each call'],hook=HOOK)
p('C16','A torn file yields what precedes the tear',
 'For a file cut off at any byte, as a crashed writer leaves it, every run returns the matches completed before the cut, in order, and neither invents results nor crashes nor hangs. A parallel run may leave out at most matches completed after the last string token of the file.',
 ['crash_points','inputs','schedules'],'every byte position of the cut, every run mode, thread count, memory bound and schedule',
 'No test has a truncated file.',[Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'parallel_automata_execution.h',Q+'lexing.c',Q+'predicate.c'],
 [('handling of the end of input in every state','lexing.c, streaming_automaton.c, worker_automaton.c')],hook=HOOK)
p('C17','A stream can be abandoned at any point',
 'Destroying a streaming context after any number of partial runs, including none and also in the middle of a value or a filtered element, releases everything except the result list, which stays valid and unchanged. Nothing of it influences later runs.',
 ['crash_points','histories'],'every position in the stream at which the context is destroyed, serial and parallel, also with refused threads',
 'The tests always feed the whole stream.',[Q+'path_processor.h',Q+'streaming_automaton.c',Q+'parallel_automata_execution.h',Q+'predicate.h'],
 [('destroyStreamingContext','path_processor.h')],observe=['allocator','the returned result list'])
p('C18','A returned result list is a stable snapshot',
 'The results a finished run has returned stay readable and unchanged until they are released, whatever other runs, releases of paths, contexts, constraint tables or other results happen in between. They do not refer to memory owned by anything else.',
 ['histories','schedules'],'every sequence of runs and releases, with an allocator that reuses or poisons released memory',
 'The tests print the results at once.',[Q+'output.h',Q+'tuple_list.h',Q+'predicate.c',Q+'path_processor.h'],
 [('results are owned copies','output.h addOutputElement'),('freeOutput','output.h')])
p('C19','A filter keeps or drops an element as a whole across boundaries',
 'For a filtered array element, either all matches inside it are delivered or none, as its condition decides, even when the element and the fields its condition needs are spread over several pieces, chunks and threads. They are delivered when the outermost filtered element ends, and never earlier.',
 ['histories','schedules','inputs'],'every cut of filtered elements by piece, chunk and memory-bound boundaries',
 'The tests filter one document in one piece.',[Q+'predicate.c',Q+'predicate.h',Q+'worker_automaton.c',Q+'parallel_automata_execution.h',Q+'streaming_automaton.c'],
 [('predicate stack and candidate buffer kept between pieces','predicate.h PredicateFilter'),('conditions found in speculative chunks','worker_automaton.c')],
 [('candidate buffer','matches whose filter is undecided','predicate.h')],hook=HOOK)
p('C20','Array positions count from the start of the array across boundaries',
 'An index or index range selects elements by their position in the whole array, however the array is cut into pieces, chunks and memory-bound parts, at every nesting depth and for elements of any kind.',
 ['histories','schedules','inputs'],'every cut of indexed arrays by piece, chunk and memory-bound boundaries',
 'The tests index small arrays in one piece.',[Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'parallel_automata_execution.h',Q+'unit.h',Q+'multi_stack.h'],
 [('element counters on the query stack','multi_stack.h'),('counters corrected at merge time','parallel_automata_execution.h')],
 [('array counters','position in each open array','multi_stack.h, unit.h')],hook=HOOK)
p('C21','The pipeline of building blocks gives the same answer',
 'Partitioning a file or a loaded stream, executing the parallel automata on the chunks and filtering the matches, called as separate steps, gives the serial answer; so does the streaming automaton followed by the filter.',
 ['schedules','inputs','configurations'],'every document, query, thread count, choice of blocks and schedule',
 'The tests call the blocks on one file and do not compare.',[Q+'parallel_automata_execution.h',Q+'streaming_automaton.h',Q+'predicate.c',Q+'file_partition.c'],
 [('executeParallelAutomata','parallel_automata_execution.h'),('executeAutomaton','streaming_automaton.c'),('generateFinalOutput','predicate.c')])
p('C22','A stream of records is queried record by record',
 'For a file or stream of several documents one after the other, separated by white space, lines or nothing, every run mode returns the concatenation of the answers for the single documents, wherever boundaries of chunks, pieces and the memory bound fall. No state leaks from one record into the next.',
 ['inputs','schedules','configurations'],'every sequence of records, separator, run mode, thread count, memory bound and split',
 'No test has more than one record in a file.',[Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'parallel_automata_execution.h',Q+'path_processor.h'],
 [('return to the start state after each top-level value','streaming_automaton.c'),('speculation on chunks that begin in another record','worker_automaton.c')],hook=HOOK)
p('C23','Memory does not grow with the length of the stream',
 'Besides the results returned so far, a streaming context, and a file run under a memory bound, hold an amount of memory that depends on the size of the pieces and on the value left unfinished, not on how much of the stream went before. A stream that repeats a record, cut at the same places each time, costs the same memory after the hundredth repetition as after the second.',
 ['histories','inputs','schedules'],'every record, query, cut and number of repetitions, as records of a stream or elements of one array, serial, parallel and constraint-guided',
 'The tests process one short file; whatever accumulates until the end is released there and is never seen.',[Q+'path_processor.h',Q+'streaming_automaton.c',Q+'parallel_automata_execution.h',Q+'predicate.c',Q+'tuple_list.h',Q+'output.h'],
 [('tuple lists emptied after every piece','path_processor.h serialPartialRun, parallel_automata_execution.h destroyParallelAutomata'),('candidates of decided filters removed from the buffer','predicate.c'),('text of finished matches released','streaming_automaton.c')],
 [('candidate buffer, pending text, tuple list','what a context carries from piece to piece','predicate.h, streaming_automaton.h')],observe=['allocator','the returned result list'],hook=HOOK)
# pure functions: not decided by simulation
p('C90','Path compilation builds the minimal right automaton',
 'The automaton compiled from a path accepts exactly the label sequences the path denotes, with the right accept kinds.',
 ['programs'],'every path','A pure function of the path text; tests compile a few.',['DFABuilder/src/dfa_builder.cpp','DFABuilder/src/Lexer'],[('Glushkov construction and subset construction','DFABuilder/src/Lexer')],observe=['the transition table'])
p('C91','Printing a parsed path shows its syntax tree',
 'The printed form of a parsed path has one node per step and operator in the order of the path.',
 ['inputs'],'every path','A pure function of the path text; tests print a few.',['JSONPathParser/jsonpath_model.h'],[('printJsonPathSubAST','jsonpath_model.h')],observe=['console output'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']; 
print(len(P))
