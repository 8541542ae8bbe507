// What the settings do, observed from outside; the check compares with what the documentation says for the
// environment it chose. Experiments that may end the program run in children.
#include "vh.h"
#include "api.h"
static void obs(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vt_line("OBS", fmt, ap); va_end(ap); }
struct Shared { volatile long v[64]; char text[1 << 16]; volatile long n; };
static Shared *S;
static int capfd = -1;
static int slurp() { lseek(capfd, 0, SEEK_SET); long n = read(capfd, S->text, sizeof S->text - 1); if (n < 0) n = 0; S->text[n] = 0; S->n = n; return (int)n; }
// runs f in a child with its output captured; wait status
static int child(void (*f)(int), int a) {
  for (int i = 0; i < 64; ++i) S->v[i] = -1;
  if (ftruncate(capfd, 0)) _exit(40);
  lseek(capfd, 0, SEEK_SET);
  int p = fork();
  if (!p) {
    dup2(capfd, 1); dup2(capfd, 2);
    signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
    rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
    f(a);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  slurp();
  return st;
}
static const char *end(int st) { static char b[30]; if (WIFSIGNALED(st)) snprintf(b, 30, "sig%d", WTERMSIG(st)); else snprintf(b, 30, "exit%d", WEXITSTATUS(st)); return b; }

enum { NF = 10 };
static const char *const FN[NF] = {"malloc", "calloc", "realloc", "strdup", "memalign256", "posix_memalign64", "valloc", "new", "new[]", "allocate"};
static void *get(int f, size_t n) {
  switch (f) {
  case 0: return a_malloc(n, "set.cpp", 1);
  case 1: return a_calloc(n ? 1 : 0, n ? n : 7, "set.cpp", 2);
  case 2: return a_realloc(0, n, "set.cpp", 3);
  case 3: { static char b[9000]; for (size_t i = 0; i + 1 < n; ++i) b[i] = 'x'; b[n - 1] = 0; return a_strdup(b, "set.cpp", 4); }
  case 4: return a_memalign(256, n, "set.cpp", 5);
  case 5: { void *p = 0; return a_posix_memalign(&p, 64, n, "set.cpp", 6) ? 0 : p; }
  case 6: return a_valloc(n, "set.cpp", 7);
#ifndef DUMA_NO_CPP_SUPPORT
  case 7: return ::operator new(n);
  case 8: return ::operator new[](n);
#endif
  }
  return 0;
}
static void put(int f, void *p) {
#ifndef DUMA_NO_CPP_SUPPORT
  if (f == 7) return ::operator delete(p);
  if (f == 8) return ::operator delete[](p);
#endif
  a_free(p, "set.cpp", 8);
}
#ifndef DUMA_NO_CPP_SUPPORT
enum { NFN = 9 };
#else
enum { NFN = 7 };
#endif
static void c_zero(int f) {
  void *a = get(f, 0); S->v[0] = (long)a;
  void *b = get(f, 0); S->v[1] = (long)b;
  S->v[2] = 1;
}
static void c_freq(int ph) {
  char *v = (char *)a_malloc(100, 0, 0);
  void *q = 0;
  for (int i = 0; i < ph; ++i) { if (q) { a_free(q, 0, 0); q = 0; } else q = a_malloc(5, 0, 0); }
  // the slack lies on the side opposite to the guard
  char *s = (size_t)v % PG ? v - 1 : v + 100;
  *s = (char)(*s ^ 0x55);
  long f = env_i("DUMA_CHECK_FREQ", 0), most = !ph && f > 70 && f < 70000 ? f + 2 : 70;
  for (long i = 1; i <= most; ++i) { S->v[0] = i; if (q) { a_free(q, 0, 0); q = 0; } else q = a_malloc(5, 0, 0); }
  S->v[0] = -1;
}
// the same, with calls of many kinds before and after
static void *c_some(Rng &r, void *q, bool zero) {
  size_t n = zero && r.pct(35) ? 0 : (size_t)r.range(1, 5000);
  if (q && r.pct(50)) { if (n && r.pct(30)) return a_realloc(q, n, 0, 0); a_free(q, 0, 0); return 0; }
  switch (r.below(4)) { case 0: return a_calloc(n, 1, 0, 0); case 1: return a_memalign(32, n, 0, 0); case 2: return n ? a_valloc(n, 0, 0) : a_malloc(0, 0, 0); default: return a_malloc(n, 0, 0); }
}
static void c_freqmix(int ph) {
  Rng r((u64)(ph * 77 + env_i("VT_SEED", 1)));
  bool zero = env_i("DUMA_MALLOC_0_STRATEGY", 3) == 3;
  char *v = (char *)a_malloc(100, 0, 0);
  void *q = 0;
  for (int i = ph * 3; i; --i) q = c_some(r, q, zero);
  char *s = (size_t)v % PG ? v - 1 : v + 100;
  *s = (char)(*s ^ 0x55);
  for (long i = 1; i <= 70; ++i) { S->v[0] = i; q = c_some(r, q, zero); }
  S->v[0] = -1;
}
static void c_big(int k) {
  errno = 0;
  void *p = k == 0 ? a_malloc((size_t)1 << 60, "set.cpp", 9) : k == 1 ? a_calloc((size_t)-1 / 2, 4, "set.cpp", 9) : a_memalign(64, (size_t)1 << 60, "set.cpp", 9);
  S->v[0] = (long)p; S->v[1] = errno;
}
static bool mapped(const void *p) { unsigned char c; return mincore((void *)rdn((size_t)p), PG, &c) == 0; }
static void c_pfree(int) {
  static char *b[400];
  int n = 200, kb = 0;
  for (int i = 0; i < n; ++i) b[i] = (char *)a_malloc(100, 0, 0);
  bool below = (size_t)b[0] % PG == 0;
  for (int i = 0; i < n; ++i) a_free(b[i], 0, 0);
  for (int i = 0; i < n; ++i) { char *p = (char *)rdn((size_t)b[i]); kb += 4 * mapped(p) + 4 * mapped(below ? p - PG : p + PG); }
  S->v[0] = kb;
}
static long vmkb() { char b[200]; int f = open("/proc/self/statm", O_RDONLY); int n = (int)read(f, b, 199); close(f); b[n > 0 ? n : 0] = 0; return strtol(b, 0, 10) * 4; }
static void c_grow(int) {
  long a = vmkb();
  for (int i = 0; i < 3000; ++i) a_free(a_malloc(100, 0, 0), 0, 0);
  S->v[0] = vmkb() - a;
}
static void c_access(int k) {
  // the read-only page holds the whole beginning of the block, or its first byte only
  static const size_t pages[] = {0, 1, 16, 77, 256, 2000};
  char *p = (char *)(k ? a_allocate(1, pages[k] * PG + 1, 0, -1, EFA_MALLOC, DUMA_FAIL_NULL, 0, 0) : a_valloc(3 * PG, 0, 0));
  if (!k) for (size_t i = 0; i < 3 * PG; ++i) p[i] = (char)i;
  mprotect((void *)rdn((size_t)p), PG, PROT_READ);
  a_free(p, 0, 0);
}
// a debugger that watches the first byte of a block while it is released: looks after each instruction
static const volatile char *watched;
static volatile char watch_old;
static volatile long watch_seen, watch_steps;
static void stepped(int, siginfo_t *, void *uc) {
  greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs;
  if (!watched) return;
  ++watch_steps;
  if (*watched != watch_old) ++watch_seen;
  const unsigned char *ip = (const unsigned char *)g[REG_RIP];
  if (ip[0] == 0x0f && ip[1] == 0x05) {          // it becomes inaccessible now?
    char *a = (char *)g[REG_RDI];
    if ((g[REG_RAX] == SYS_mprotect || g[REG_RAX] == SYS_munmap) && (char *)watched >= a && (char *)watched < a + g[REG_RSI]) { watched = 0; g[REG_EFL] &= ~0x100l; }
  }
}
static void put(int f, void *p);
static void *get(int f, size_t n);
static void c_watch(int n) {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = stepped; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
  S->v[0] = S->v[1] = S->v[2] = 0;
  static const size_t sz[] = {1, 2, 7, 64, 1000, 5000};
  for (int k = 0; k < 6; ++k) {
    int f = (n + k * 3) % NFN;
    char *p = (char *)get(f, sz[k]);
    if (!p) continue;
    *p = k & 1 ? (char)0x80 : (char)0;           // at the ends of its range, too
    if (f == 3 && sz[k] == 1) *p = 0;
    watch_old = *p; watch_seen = 0; watched = p;
    asm volatile("sub $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; add $128,%%rsp" ::: "memory", "cc");
    put(f, p);
    asm volatile("sub $128,%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; add $128,%%rsp" ::: "memory", "cc");
    watched = 0;
    ++S->v[0];
    if (watch_seen) ++S->v[1];
    else if (S->v[3] < 0) { S->v[3] = f; S->v[4] = (long)sz[k]; }
  }
  S->v[2] = watch_steps;
}
static void c_show(int) { void *p = a_malloc(100, "show.c", 77); (void)p; }
static void c_overlap(int up) { char *b = (char *)a_malloc(100, 0, 0); if (up) a_memcpy(b + 5, b, 20, 0, 0); else a_memcpy(b, b + 5, 20, 0, 0); }
static void c_report(int) { void *volatile a = a_malloc(771, 0, 0); void *volatile b = a_malloc(772, "leak.c", 5); (void)a; (void)b; a_delframe(); }
static void c_slackdead(int) {     // overwritten slack is found at release
  char *v = (char *)a_malloc(100, 0, 0);
  char *s = (size_t)v % PG ? v - 1 : v + 100;
  *s = (char)(*s ^ 0x55);
  a_free(v, 0, 0);
}
static size_t low2(size_t n) { size_t a = 1; while (a * 2 <= n) a *= 2; return a; }
// the run-time macros
static void dynamic(Rng &r, long al, long pb, long fill) {
  struct B { char *p; size_t n; int f; long al, pb; } live[40]; int nl = 0;
  for (int step = 0; step < 60; ++step) {
    int k = (int)r.below(3);
    long v;
    if (k == 0) { v = (long)r.below(8); al = v ? 1l << (v - 1) : 0; DUMA_SET_ALIGNMENT(al); if (!al) al = 1; }
    else if (k == 1) { pb = (long)r.below(2); DUMA_SET_PROTECT_BELOW((int)pb); }
    else { fill = r.pct(20) ? -1 : (long)r.below(256); DUMA_SET_FILL((int)fill); }
    for (int j = 0; j < 3; ++j) {
      int f = (int)r.below(NFN);
      size_t n = r.pct(50) ? r.range(1, 70) : r.range(1, 9000 - 1);
      u8 *p = (u8 *)get(f, n);
      size_t a = f == 4 ? 256 : f == 5 ? 64 : f == 6 ? PG : (size_t)al > n ? low2(n) : (size_t)al;
      size_t off = pb ? 0 : ((rup(n) - n) & ~(a - 1)) % PG;
      if ((size_t)p % PG != off) viol("SET", "after DUMA_SET_*(): %s(%zu) with alignment %ld, protect-below %ld lies at offset %zu of its page, expected %zu", FN[f], n, al, pb, (size_t)p % PG, off);
      long want = f == 1 ? 0 : f == 3 ? 'x' : fill < 0 ? 0 : fill;
      for (size_t i = 0; i < n; i += 1 + n / 9)
        if (p[i] != (f == 3 && i + 1 == n ? 0 : want)) { viol("SET", "after DUMA_SET_FILL(%ld): byte %zu of %s(%zu) is %u", fill, i, FN[f], n, p[i]); break; }
      if (nl == 40) { put(live[0].f, live[0].p); for (int m = 1; m < nl; ++m) live[m - 1] = live[m]; --nl; }
      live[nl++] = B{(char *)p, n, f, (long)a, pb};
      situation(mix(mix(mix(f, a), pb), mix(k, fill < 0)));
    }
    for (int m = 0; m < nl; ++m) {     // all keep their guards
      B &b = live[m];
      const char *g = b.pb ? b.p - 1 : (const char *)rup((size_t)b.p + b.n);
      if (!dead(g) || !alive(b.p) || !alive(b.p + b.n - 1)) { viol("SET", "a block of %zu bytes from %s, allocated with protect-below %ld, lost its guard or access when settings changed", b.n, FN[b.f], b.pb); break; }
    }
  }
  while (nl) { --nl; put(live[nl].f, live[nl].p); }
}
int main(int argc, char **argv) {
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  S = (Shared *)mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  capfd = memfd_create("cap", 0);
  if (argc > 1 && xeq(argv[1], "exit")) {     // a leak until the end
    void *volatile p = a_malloc(773, "leak.c", 9); (void)p;
    stat_("done 1");
    return 0;
  }
  if (argc > 1 && xeq(argv[1], "held")) {     // only what is kept of equal blocks
    install_probes();
    int st = child(c_pfree, 0);
    obs("held %ld %s", S->v[0], end(st));
    stat_("done 1");
    return 0;
  }
  install_probes();
  Rng r(env_u("VT_SEED", 1));
  { int st = child(c_pfree, 0); obs("held %ld %s", S->v[0], end(st)); }
  static const size_t sizes[] = {1, 2, 3, 5, 8, 12, 17, 33, 64, 65, 100, 127, 1000, 4095, 4096, 4097, 8001};
  for (int f = 0; f < NFN; ++f)
    for (size_t n : sizes) {
      u8 *p = (u8 *)get(f, n);
      int uniform = 1;
      for (size_t i = 1; i + 1 < n; ++i) if (p[i] != p[0]) uniform = 0;
      obs("off %s %zu %zu", FN[f], n, (size_t)p % PG);
      obs("fill %s %zu %d", FN[f], n, uniform ? p[0] : -1);
      bool below = (size_t)p % PG == 0 && dead(p - 1);
      const u8 *s = !below && (size_t)p % PG ? p - 1 : (size_t)(p + n) % PG ? p + n : 0;
      if (s && alive(s)) obs("slack %s %zu %d", FN[f], n, *s);
      if (r.pct(50)) put(f, p);
    }
  for (int f = 0; f < NFN; ++f) {
    if (f == 3) continue;
    int st = child(c_zero, f);
    const char *w = st ? (WIFSIGNALED(st) && WTERMSIG(st) == SIGILL && xfind(S->text, "Allocating 0 bytes, probably a bug") ? "abort" : end(st)) : !S->v[0] && !S->v[1] ? "null" : S->v[0] == S->v[1] ? "shared" : !S->v[0] || !S->v[1] ? "mixed" : "unique";
    obs("zero %s %s", FN[f], w);
  }
  for (int ph = 0; ph < 12; ++ph) { int st = child(c_freq, ph); obs("freq %d %ld %s", ph, S->v[0], end(st)); }
  for (int ph = 0; ph < 12; ++ph) { int st = child(c_freqmix, ph); obs("freqmix %d %ld %s", ph, S->v[0], end(st)); }
  { int st = child(c_slackdead, 0); obs("slackdead %s %d", end(st), xfind(S->text, "no mans land") != 0); }
  for (int k = 0; k < 3; ++k) { int st = child(c_big, k); obs("big %d %s", k, st ? end(st) : !S->v[0] && S->v[1] == ENOMEM ? "null" : "other"); }
  { int st = child(c_grow, 0); obs("grow %ld %s", S->v[0], end(st)); }
  for (int k = 0; k < 6; ++k) { int st = child(c_access, k); obs("access %s", end(st)); }
  if (env_i("DUMA_CHECK_FREQ", 0)) obs("watch 0 0 unused"); else { int st = child(c_watch, (int)r.below(30)); obs("watch %ld %ld %s", S->v[0], S->v[1], end(st)); if (S->v[2] > 0) stat_("watch_steps %ld", S->v[2]); }
  { int st = child(c_show, 0); obs("show %s %d %d", end(st), xfind(S->text, "Allocating 100 byte") != 0, (int)S->n); }
  for (int k = 0; k < 2; ++k) { int st = child(c_overlap, k); obs("overlap %d %s", k, end(st)); }
#if HAVE_FL
  { int st = child(c_report, 0); obs("report %s %d %d", end(st), xfind(S->text, "size=771 ") != 0, xfind(S->text, "size=772 ") != 0); }
#endif
  dynamic(r, env_i("DUMA_ALIGNMENT", 1) ? env_i("DUMA_ALIGNMENT", 1) : 1, env_i("DUMA_PROTECT_BELOW", 0) != 0, env_i("DUMA_FILL", 255) == -1 ? -1 : env_i("DUMA_FILL", 255) & 255);
  stat_("done 1");
  situations_out();
  syscall(SYS_exit_group, 0);
}
