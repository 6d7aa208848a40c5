#ifndef VT_ALLOC_H
#define VT_ALLOC_H
#ifdef __cplusplus
extern "C" {
#endif
extern long vt_live, vt_calls, vt_failed;
extern int (*vt_should_fail)(void);
void vt_free(void *p);
void *vt_malloc(unsigned long n);
#ifdef __cplusplus
}
#endif
#endif
