/* The functions as a C program with duma.h calls them. */
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include "duma.h"
const char *m_file(void) { return __FILE__; }
void *m_memcpy(void *d, const void *s, size_t n, int *l) { *l = __LINE__; return memcpy(d, s, n); }
void *m_memmove(void *d, const void *s, size_t n, int *l) { *l = __LINE__; return memmove(d, s, n); }
char *m_strcpy(char *d, const char *s, int *l) { *l = __LINE__; return strcpy(d, s); }
char *m_strncpy(char *d, const char *s, size_t n, int *l) { *l = __LINE__; return strncpy(d, s, n); }
char *m_strcat(char *d, const char *s, int *l) { *l = __LINE__; return strcat(d, s); }
char *m_strncat(char *d, const char *s, size_t n, int *l) { *l = __LINE__; return strncat(d, s, n); }
char *m_strdup(const char *s, int *l) { *l = __LINE__; return strdup(s); }
