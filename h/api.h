// The library's calls, independent of leak detection being compiled in.
#pragma once
#include <malloc.h>
#include <new>
#include <stdlib.h>
#include <string.h>
#define DUMA_SKIP_SETUP 1
#ifndef DUMA_OLD_NEW_MACRO
#define DUMA_OLD_NEW_MACRO 1
#endif
#define DUMA_OLD_DEL_MACRO 1
#include "dumapp.h"
#undef new
#undef delete
#ifdef DUMA_NO_LEAKDETECTION
#define FLP(F, L)
#define HAVE_FL 0
#undef DUMA_newFrame
#undef DUMA_delFrame
#else
#define FLP(F, L) , F, L
#define HAVE_FL 1
#endif
static inline void *a_malloc(size_t n, const char *f, int l) { (void)f; (void)l; return _duma_malloc(n FLP(f, l)); }
static inline void *a_calloc(size_t a, size_t b, const char *f, int l) { (void)f; (void)l; return _duma_calloc(a, b FLP(f, l)); }
static inline void a_free(void *p, const char *f, int l) { (void)f; (void)l; _duma_free(p FLP(f, l)); }
static inline void *a_memalign(size_t a, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_memalign(a, n FLP(f, l)); }
static inline int a_posix_memalign(void **m, size_t a, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_posix_memalign(m, a, n FLP(f, l)); }
static inline void *a_realloc(void *p, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_realloc(p, n FLP(f, l)); }
static inline void *a_valloc(size_t n, const char *f, int l) { (void)f; (void)l; return _duma_valloc(n FLP(f, l)); }
static inline size_t a_usable(void *p) { return _duma_malloc_usable_size(p FLP("usable.c", 1)); }
static inline char *a_strdup(const char *s, const char *f, int l) { (void)f; (void)l; return _duma_strdup(s FLP(f, l)); }
static inline void *a_memcpy(void *d, const void *s, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_memcpy(d, s, n FLP(f, l)); }
static inline char *a_strcpy(char *d, const char *s, const char *f, int l) { (void)f; (void)l; return _duma_strcpy(d, s FLP(f, l)); }
static inline char *a_strncpy(char *d, const char *s, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_strncpy(d, s, n FLP(f, l)); }
static inline char *a_strcat(char *d, const char *s, const char *f, int l) { (void)f; (void)l; return _duma_strcat(d, s FLP(f, l)); }
static inline char *a_strncat(char *d, const char *s, size_t n, const char *f, int l) { (void)f; (void)l; return _duma_strncat(d, s, n FLP(f, l)); }
static inline void *a_allocate(size_t al, size_t n, int pb, int fill, enum _DUMA_Allocator k, enum _DUMA_FailReturn fr, const char *f, int l) { (void)f; (void)l; return _duma_allocate(al, n, pb, fill, 1, k, fr FLP(f, l)); }
static inline void a_deallocate(void *p, enum _DUMA_Allocator k, const char *f, int l) { (void)f; (void)l; _duma_deallocate(p, 1, k FLP(f, l)); }
#if HAVE_FL
static inline void a_delframe() { DUMA_delFrame(); }
#else
static inline void a_delframe() {}
#endif
