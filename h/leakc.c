/* A C program as users write them: the report has to name these very lines. Argument: which blocks leak (bit mask), how to end. */
#define _GNU_SOURCE 1
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "duma.h"
static void say(const char *t, void *p, size_t n, int line) {
  char b[200];
  int k = snprintf(b, sizeof b, "EXP %s %lx %lu %d\n", t, (unsigned long)p, (unsigned long)n, line);
  const char *fd = getenv("VT_FD");
  if (write(fd ? atoi(fd) : 3, b, k) < 0) return;
}
struct V { void *p; size_t n; const char *t; int line; } v[8];
int main(int argc, char **argv) {
  unsigned mask = (unsigned)strtoul(argv[1], 0, 0);
  int how = atoi(argv[2]), i;
  struct V *q = v;
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  q->p = malloc(q->n = 17); q->t = "malloc()"; q++->line = __LINE__;
  q->p = calloc(3, 40); q->n = 120; q->t = "calloc()"; q++->line = __LINE__;
  q->p = memalign(64, q->n = 1000); q->t = "memalign()"; q++->line = __LINE__;
  if (posix_memalign(&q->p, 32, q->n = 33)) return 3;
  q->t = "posix_memalign()"; q++->line = __LINE__ - 1;
  q->p = valloc(q->n = 5000); q->t = "valloc()"; q++->line = __LINE__;
  q->p = strdup("leaking"); q->n = 8; q->t = "strdup()"; q++->line = __LINE__;
  q->p = malloc(5);
  q->p = realloc(q->p, q->n = 9000); q->t = "realloc()"; q++->line = __LINE__;
  q->p = realloc(0, q->n = 1); q->t = "realloc()"; q++->line = __LINE__;
  for (i = 0; i < 8; ++i)
    if (mask & (1u << i)) say(v[i].t, v[i].p, v[i].n, v[i].line); else free(v[i].p);
  say("done", 0, 0, 0);
  if (how == 1) exit(0);
  return 0;
}
