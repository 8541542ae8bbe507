/* A program that forgets blocks, none with a known position; which one came from where is found with a debugger. */
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#define S(n) void *site_##n(int k);
#define SITES S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9)
SITES
#undef S
static void *get(int w, size_t n) {
  void *p = 0;
  switch (w) {
  case 0: return malloc(n);
  case 1: return calloc(n, 3);
  case 2: return realloc(0, n);
  case 3: return strdup("some text");
  case 4: return posix_memalign(&p, 64, n) ? 0 : p;
  case 5: return aligned_alloc(32, n);
  case 6: p = malloc(3); return realloc(p, n + 10);
  case 7: return memalign(128, n);
  case 8: return valloc(n);
  default: return malloc(0);
  }
}
#define S(n) __attribute__((noinline)) void *site_##n(int k) { void *volatile p = get(n, 5u + (unsigned)k * 37u % 5000u); return p; }
SITES
#undef S
#define S(n) site_##n,
static void *(*const site[])(int) = {SITES};
int main(int c, char **v) {
  unsigned s = c > 1 ? (unsigned)atoi(v[1]) : 1;
  FILE *f = fopen(c > 2 ? v[2] : "/dev/null", "w");
  for (int k = 0; k < 60; ++k) {
    s = s * 1103515245u + 12345u;
    int w = (int)(s >> 16) % 10, leak = (int)(s >> 24) % 3 == 0;
    void *p = site[w](k);
    if (leak) { if (f) fprintf(f, "%lx %d\n", (unsigned long)p, w); }
    else free(p);
  }
  if (f) fclose(f);
  return 0;
}
