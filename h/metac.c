/* A plain C program without any C++ runtime: nothing but its own blocks is in the heap, often none at all.
   After every call the allocator's table has to be closed; without live blocks no page of the pool may be accessible. */
#define _GNU_SOURCE 1
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "duma.h"
static int fd = 3, pfd[2];
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 11) % n); }
static long viols, ops, empty_reports, probes, sweeps;
static void say(const char *b) { if (write(fd, b, strlen(b)) < 0) return; }
static void viol(const char *what, const char *after, int live) {
  char b[300];
  if (viols++ > 10) return;
  snprintf(b, sizeof b, "VIOL META %s after %s with %d live blocks\n", what, after, live);
  say(b);
}
/* without touching it: the kernel's copy answers EFAULT */
static int accessible(const void *p) {
  char c = 0;
  if (write(pfd[1], p, 1) == 1) { if (read(pfd[0], &c, 1) != 1) abort(); return 1; }
  if (write(pfd[1], &c, 1) != 1) abort();
  if (read(pfd[0], (void *)p, 1) == 1) return 1;
  if (read(pfd[0], &c, 1) != 1) abort();
  return 0;
}
static char mb[1 << 18];
/* pages of anonymous private memory the program can reach, except for [heap] and [stack] */
static long reach(void) {
  int f = open("/proc/self/maps", O_RDONLY), n = 0, k;
  long t = 0;
  char *l, *e;
  while ((k = read(f, mb + n, sizeof mb - 1 - n)) > 0) n += k;
  close(f);
  mb[n] = 0;
  for (l = mb; *l; l = e + 1) {
    unsigned long a, b, off, ino = 1;
    char pr[8], dev[16];
    e = strchr(l, '\n');
    if (!e) break;
    *e = 0;
    if (sscanf(l, "%lx-%lx %7s %lx %15s %lu", &a, &b, pr, &off, dev, &ino) == 6 && !ino && !strchr(l, '[') && (pr[0] == 'r' || pr[1] == 'w'))
      t += (long)((b - a) / 4096);
  }
  return t;
}
#ifdef DUMA_NO_LEAKDETECTION
#define REPORT() ((void)0)
#else
#define REPORT() DUMA_delFrame()
#endif
static char *v[64];
static int n;
int main(void) {
  long base, i, max;
  int every, maxlive;
  char b[200];
  if (getenv("VT_FD")) fd = atoi(getenv("VT_FD"));
  rs = 88172645463325252ull + strtoull(getenv("VT_SEED") ? getenv("VT_SEED") : "1", 0, 10) * 7919;
  max = getenv("VT_OPS") ? atol(getenv("VT_OPS")) : 3000;
  every = getenv("VT_EVERY") ? atoi(getenv("VT_EVERY")) : 4;
  maxlive = getenv("VT_LIVE") ? atoi(getenv("VT_LIVE")) : 3;
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  free(malloc(1));
  if (pipe(pfd) || fcntl(pfd[0], F_SETFL, O_NONBLOCK)) return 4;
  reach();
  base = reach();
  if (accessible(_duma_g.allocList)) viol("the table is accessible", "start", 0);
  for (i = 0; i < max; ++i) {
    const char *w = "?";
    void *p = 0;
    unsigned s = rnd(4) ? rnd(6000) : rnd(40), k = rnd(22);
    int j = n ? (int)rnd(n) : 0;
    if (k < 9 && n >= maxlive) k = 9 + rnd(4);
    errno = 0;
    switch (k) {
    case 0: w = "malloc"; p = malloc(s + 1); break;
    case 1: w = "calloc"; p = calloc(s / 3 + 1, 3); break;
    case 2: w = "memalign"; p = memalign(1u << rnd(13), s + 1); break;
    case 3: w = "posix_memalign"; if (posix_memalign(&p, 8u << rnd(9), s + 1)) p = 0; break;
    case 4: w = "valloc"; p = valloc(s + 1); break;
    case 5: w = "strdup"; p = strdup("meta"); break;
    case 6: w = "realloc(0)"; p = realloc(0, s + 1); break;
    case 7: w = "malloc(0)"; p = malloc(0); break;
    case 8: w = "calloc(0)"; p = calloc(0, 7); break;
    case 9: case 10: case 11: w = "free"; if (n) { free(v[j]); v[j] = v[--n]; } break;
    case 12: w = "realloc"; if (n) { v[j] = realloc(v[j], s); if (!v[j]) v[j] = v[--n]; } break;
    case 13: w = "free(0)"; free(0); break;
    case 14: w = "check"; DUMA_CHECK(n ? v[j] : 0); break;
    case 15: w = "check all"; DUMA_CHECKALL(); break;
    case 16: w = n ? "leak report" : "empty leak report"; REPORT(); empty_reports += !n; break;
    case 17: w = "usable size"; malloc_usable_size(n ? v[j] : 0); break;
    case 18: w = "refused malloc"; if (malloc((size_t)1 << 60)) return 5; break;
    case 19: w = "refused calloc"; if (calloc((size_t)-1 / 2, 4)) return 5; break;
    case 20: w = "posix_memalign(EINVAL)"; { void *q = &q; if (posix_memalign(&q, 3, 10) != EINVAL || q != &q) return 6; } break;
    case 21: w = "refused realloc"; if (realloc(n ? v[j] : 0, (size_t)1 << 60)) return 5; break;
    }
    if (p) v[n++] = p;
    ++ops;
    {
      static char seen[22][3];
      int c = n == 0 ? 0 : n < 3 ? 1 : 2;
      if (!seen[k][c]) { seen[k][c] = 1; snprintf(b, sizeof b, "CASE %s, %s live\n", w, c == 0 ? "none" : c == 1 ? "few" : "more"); say(b); }
    }
    ++probes;
    if (accessible(_duma_g.allocList)) viol("the table is accessible", w, n);
    if (!n && ops % every == 0) {
      ++sweeps;
      long r = reach();
      if (r != base) { snprintf(b, sizeof b, "%ld more pages than at the start are accessible", r - base); viol(b, w, n); base = r; }
    }
  }
  snprintf(b, sizeof b, "STAT ops %ld\nSTAT tableprobes %ld\nSTAT sweeps %ld\nSTAT empty_reports %ld\nSTAT done 1\n", ops, probes, sweeps, empty_reports);
  say(b);
  return 0;
}
