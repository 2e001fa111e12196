#ifndef SHIM_H
#define SHIM_H
#ifdef __cplusplus
extern "C" {
#endif
void* shim_pp_new(const char* path);
void shim_pp_free(void* pp);
void* shim_train(void* pp, const char* file);
void shim_ct_free(void* ct);
void* shim_serial(void* pp, const char* file);
void* shim_par(void* pp, const char* file, int n);
void* shim_opt(void* pp, const char* file, int n, void* ct);
int shim_out_size(void* o);
const char* shim_out_get(void* o, int i);
void shim_out_free(void* o);
const void* shim_out_array(void* o);
void* shim_internal(void* pp, const char* file, int n, void* ct, int mode);
void* shim_ctx_new(void);
void* shim_feed(void* ctx, void* pp, const char* text, int mode, int n, void* ct);
void shim_ctx_del(void* ctx);
char** shim_partmem(const char* text, int n, int* num);
char** shim_partfile(const char* file, int n, int* num);
void shim_part_free(char** s, int num);
char* shim_loadb(const char* file, int* pos);
char* shim_load(const char* file);
char* shim_buf(unsigned long n);
void shim_buf_free(char* p);
#ifdef __cplusplus
}
#endif
#endif
