// Common parts of the harnesses: raw output, random numbers, probes of memory, children.
// Nothing here allocates: the harness must not disturb the heap it observes.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
#define PG ((size_t)4096)
static inline size_t rdn(size_t x) { return x & ~(PG - 1); }
static inline size_t rup(size_t x) { return (x + PG - 1) & ~(PG - 1); }

// ---------------------------------------------------------------- output
// lines on the result descriptor (VT_FD, default 3): VIOL tag text | STAT name n | CASE text | KEY text
static int vt_fd = -1;
static int vt_viols = 0;
static size_t xlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
static bool xeq(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static const char *xfind(const char *h, const char *n) {
  if (!*n) return h;
  for (; *h; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return h; }
  return 0;
}
static char **vt_envp = 0;   // set by harnesses that run before the C library knows the environment
static const char *env_s(const char *k, const char *d) {
  extern char **environ;
  size_t n = xlen(k);
  for (char **e = vt_envp ? vt_envp : environ; e && *e; ++e) {
    size_t i = 0;
    while (i < n && (*e)[i] == k[i]) ++i;
    if (i == n && (*e)[n] == '=') return *e + n + 1;
  }
  return d;
}
static long env_i(const char *k, long d) {
  const char *s = env_s(k, 0);
  if (!s || !*s) return d;
  return strtol(s, 0, 10);
}
static u64 env_u(const char *k, u64 d) {
  const char *s = env_s(k, 0);
  if (!s || !*s) return d;
  return strtoull(s, 0, 10);
}
static void vt_line(const char *pre, const char *fmt, va_list ap) {
  char b[3000];
  int n = snprintf(b, sizeof b, "%s ", pre);
  int m = vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  if (m > (int)sizeof b - n - 3) m = sizeof b - n - 3;
  n += m;
  for (int i = 0; i < n; ++i) if (b[i] == '\n') b[i] = '|';
  b[n++] = '\n';
  if (vt_fd < 0) vt_fd = (int)env_i("VT_FD", 3);
  syscall(SYS_write, vt_fd, b, (size_t)n);
}
__attribute__((format(printf, 1, 2))) static void stat_(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vt_line("STAT", fmt, ap); va_end(ap);
}
__attribute__((format(printf, 1, 2))) static void case_(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vt_line("CASE", fmt, ap); va_end(ap);
}
// describes what is going on, so that a crash can be attributed
static void (*vt_context)(char *, size_t) = 0;
__attribute__((format(printf, 2, 3))) static void viol(const char *tag, const char *fmt, ...) {
  char b[2200], p[64];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, 1800, fmt, ap);
  va_end(ap);
  if (n > 1799) n = 1799;
  if (vt_context) { char c[300]; c[0] = 0; vt_context(c, sizeof c); snprintf(b + n, sizeof b - n, " [%s]", c); }
  snprintf(p, sizeof p, "VIOL %s", tag);
  va_list e; (void)e;
  struct L { static void go(const char *pre, const char *f, ...) { va_list a; va_start(a, f); vt_line(pre, f, a); va_end(a); } };
  L::go(p, "%s", b);
  if (++vt_viols > 40) _exit(9);
}

// ---------------------------------------------------------------- random
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool pct(int p) { return (int)below(100) < p; }
};

// ---------------------------------------------------------------- distinct situations
static u8 vt_bits[1 << 16];
static long vt_distinct = 0;
static u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); }
static void situation(u64 h) {
  u32 i = (u32)(h % (8u << 16));
  if (!(vt_bits[i >> 3] & (1 << (i & 7)))) { vt_bits[i >> 3] |= 1 << (i & 7); ++vt_distinct; }
}

// the set of situations seen, as numbers; the checks unite the sets of all runs
static void situations_out() {
  char b[2400]; int n = 0, k = 0;
  if (vt_fd < 0) vt_fd = (int)env_i("VT_FD", 3);
  for (u32 i = 0; i < (8u << 16); ++i)
    if (vt_bits[i >> 3] & (1 << (i & 7))) {
      if (!n) n = snprintf(b, sizeof b, "KEYS");
      n += snprintf(b + n, sizeof b - n, " %u", i);
      if (++k % 300 == 0) { b[n++] = '\n'; syscall(SYS_write, vt_fd, b, (size_t)n); n = 0; }
    }
  if (n) { b[n++] = '\n'; syscall(SYS_write, vt_fd, b, (size_t)n); }
}

// ---------------------------------------------------------------- probes
static __thread sigjmp_buf vt_jb;
static __thread volatile int vt_armed = 0;
static __thread volatile int vt_sig = 0;
static __thread volatile uintptr_t vt_addr = 0;
static void vt_handler(int sig, siginfo_t *si, void *) {
  if (vt_armed) {
    vt_armed = 0;
    vt_sig = sig;
    vt_addr = (uintptr_t)si->si_addr;
    siglongjmp(vt_jb, 1);
  }
  char c[300]; c[0] = 0;
  if (vt_context) vt_context(c, sizeof c);
  char b[500];
  int n = snprintf(b, sizeof b, "CRASH signal %d at %p [%s]\n", sig, si->si_addr, c);
  if (vt_fd < 0) vt_fd = (int)env_i("VT_FD", 3);
  syscall(SYS_write, vt_fd, b, (size_t)n);
  signal(sig, SIG_DFL);
  raise(sig);
  _exit(99);
}
static void install_probes() {
  struct sigaction sa;
  for (size_t i = 0; i < sizeof sa; ++i) ((char *)&sa)[i] = 0;
  sa.sa_sigaction = vt_handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
}
// 0: access works, else the signal
__attribute__((noinline)) static int probe_r(const volatile void *p) {
  if (sigsetjmp(vt_jb, 0)) return vt_sig;
  vt_armed = 1;
  volatile char c = *(const volatile char *)p;
  (void)c;
  vt_armed = 0;
  return 0;
}
// writes back the value found
__attribute__((noinline)) static int probe_w(volatile void *p) {
  if (sigsetjmp(vt_jb, 0)) return vt_sig;
  vt_armed = 1;
  volatile char *c = (volatile char *)p;
  // a plain store: a page that is only readable has to be told apart
  char v = *c;
  *c = v;
  vt_armed = 0;
  return 0;
}
// a store without a load before it
__attribute__((noinline)) static int probe_s(volatile void *p, char v) {
  if (sigsetjmp(vt_jb, 0)) return vt_sig;
  vt_armed = 1;
  *(volatile char *)p = v;
  vt_armed = 0;
  return 0;
}
// inaccessible for reads and for writes?
static bool dead(const void *p) {
  if (!probe_r(p)) return false;
  return probe_s((void *)p, 0) != 0;
}
static bool alive(const void *p) { return probe_w((void *)p) == 0; }

// ---------------------------------------------------------------- mappings of this process
struct Map { uintptr_t a, b; u8 r, w, x; bool stack; };
static Map *vt_maps = 0;
static int vt_nmaps = 0;
enum { MAXMAPS = 70000 };
static char *vt_mapbuf = 0;
enum { MAPBUF = 8 << 20 };
static void maps_init() {
  vt_maps = (Map *)mmap(0, sizeof(Map) * MAXMAPS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  vt_mapbuf = (char *)mmap(0, MAPBUF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static bool maps_read() {
  if (!vt_maps) maps_init();
  int fd = open("/proc/self/maps", O_RDONLY);
  if (fd < 0) return false;
  size_t n = 0;
  for (;;) {
    ssize_t k = read(fd, vt_mapbuf + n, MAPBUF - 1 - n);
    if (k <= 0) break;
    n += k;
  }
  close(fd);
  vt_mapbuf[n] = 0;
  vt_nmaps = 0;
  for (char *p = vt_mapbuf; *p && vt_nmaps < MAXMAPS;) {
    Map m; m.a = m.b = 0;
    while (*p != '-') { m.a = m.a * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10); ++p; }
    ++p;
    while (*p != ' ') { m.b = m.b * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10); ++p; }
    ++p;
    m.r = p[0] == 'r'; m.w = p[1] == 'w'; m.x = p[2] == 'x'; m.stack = false;
    while (*p && *p != '\n') { if (p[0] == '[' && p[1] == 's' && p[2] == 't') m.stack = true; ++p; }
    if (*p) ++p;
    vt_maps[vt_nmaps++] = m;
  }
  return true;
}
static const Map *maps_at(uintptr_t a) {
  int lo = 0, hi = vt_nmaps;
  while (lo < hi) { int m = (lo + hi) / 2; if (vt_maps[m].b <= a) lo = m + 1; else hi = m; }
  if (lo < vt_nmaps && vt_maps[lo].a <= a) return &vt_maps[lo];
  return 0;
}
static bool maps_acc(uintptr_t a) { const Map *m = maps_at(a); return m && (m->r || m->w || m->x); }
// all of [a,b) readable and writable
static bool maps_rw(uintptr_t a, uintptr_t b) {
  while (a < b) { const Map *m = maps_at(a); if (!m || !m->r || !m->w) return false; a = m->b; }
  return true;
}

// ---------------------------------------------------------------- children
struct Child { int status; bool timeout; int n; char out[16384]; };
static Child vt_child;
// runs f in a forked child whose stderr (and stdout) is captured
template <class F> static Child &in_child(F f, int secs = 20) {
  Child &c = vt_child;
  int pp[2];
  c.n = 0; c.status = 0; c.timeout = false; c.out[0] = 0;
  if (pipe(pp)) { c.status = -1; return c; }
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    dup2(pp[1], 2);
    dup2(pp[1], 1);
    if (pp[1] > 2) close(pp[1]);
    signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
    alarm(secs);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    f();
    _exit(0);
  }
  close(pp[1]);
  for (;;) {
    char dump[4096];
    ssize_t k;
    if (c.n < (int)sizeof c.out - 1) k = read(pp[0], c.out + c.n, sizeof c.out - 1 - c.n), k > 0 ? c.n += k : 0;
    else k = read(pp[0], dump, sizeof dump);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
  }
  close(pp[0]);
  c.out[c.n < (int)sizeof c.out ? c.n : sizeof c.out - 1] = 0;
  while (waitpid(pid, &c.status, 0) < 0 && errno == EINTR) ;
  c.timeout = WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGALRM;
  return c;
}
static bool has(const Child &c, const char *s) { return xfind(c.out, s) != 0; }
static bool exited(const Child &c, int v = 0) { return WIFEXITED(c.status) && WEXITSTATUS(c.status) == v; }
static bool killed(const Child &c, int sig) { return WIFSIGNALED(c.status) && WTERMSIG(c.status) == sig; }
// stopped by DUMA_Abort
static bool aborted(const Child &c) { return killed(c, SIGILL) && has(c, "DUMA Aborting: "); }
