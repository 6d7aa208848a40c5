/* Force-included into every libtsm source the harness compiles. It routes the
 * C library allocator through counting wrappers (alloc.c), so leaks are counted
 * per case and allocation failures can be injected. No source of /repo changes. */
#ifndef VT_PRELUDE_H
#define VT_PRELUDE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <wchar.h>
#ifdef VT_TINY_AGE
/* ages wrap after 255 changes instead of 2^64, so the overflow is reachable */
#define uint_fast32_t uint8_t
#endif
#ifdef __cplusplus
extern "C" {
#endif
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t s);
void *vt_realloc(void *p, size_t n);
void *vt_reallocarray(void *p, size_t n, size_t s);
void vt_free(void *p);
char *vt_strdup(const char *s);
char *vt_strndup(const char *s, size_t n);
int vt_asprintf(char **out, const char *fmt, ...);
#ifdef __cplusplus
}
#endif
#ifndef VT_NO_WRAP
#undef strdup
#undef strndup
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define reallocarray vt_reallocarray
#define free vt_free
#define strdup vt_strdup
#define strndup vt_strndup
#define asprintf vt_asprintf
#endif
#ifdef VT_SIMOS
/* C26: I/O on simulated descriptors goes to a simulated kernel */
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#ifdef __cplusplus
extern "C" {
#endif
ssize_t vt_read(int fd, void *b, size_t n);
ssize_t vt_write(int fd, const void *b, size_t n);
ssize_t vt_readv(int fd, const struct iovec *v, int n);
ssize_t vt_writev(int fd, const struct iovec *v, int n);
int vt_epoll_ctl(int ep, int op, int fd, struct epoll_event *e);
int vt_epoll_wait(int ep, struct epoll_event *e, int max, int timeout);
#ifdef __cplusplus
}
#endif
#define read(a, b, c) vt_read(a, b, c)
#define write(a, b, c) vt_write(a, b, c)
#define readv(a, b, c) vt_readv(a, b, c)
#define writev(a, b, c) vt_writev(a, b, c)
#define epoll_ctl(a, b, c, d) vt_epoll_ctl(a, b, c, d)
#define epoll_wait(a, b, c, d) vt_epoll_wait(a, b, c, d)
#endif
#endif
