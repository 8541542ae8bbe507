// Diagnostics: a supervisor starts itself again with all kinds of output channels; the program started
// says (in shared memory) which messages it is about to cause, the supervisor compares every byte.
#include "vh.h"
#include <termios.h>
#include "api.h"
#include <limits.h>
#include <dirent.h>
#include <poll.h>
#include <sys/ioctl.h>
extern "C" { extern int DUMA_OUTPUT_STDOUT, DUMA_OUTPUT_STDERR; extern char *DUMA_OUTPUT_FILE; }
extern char **environ;

// ---- expected messages: parts that are literal, and names that may be cut when long
enum { MAXMSG = 80, MAXPART = 24, TEXT = 4000000 };
struct Part { int off, len, name; };
struct Msg { int n; Part p[MAXPART]; int total; int out, err, file; int opt; };
struct Shared {
  int nmsg; Msg m[MAXMSG]; int ntext; char text[TEXT];
  int fatal;               // signal the program has to end by, 0: exit
  int marks;               // 1: stdout got the handler's mark
  int start_ok;
  int nfds0, nfds1;
  int eo, ee, ef;
  int over;                // expected list was too short
};
static Shared *S;
static char fname2[5000];
static Msg *cur;
static int maybe = 0;        // the next ones need not come: the call fails, its log may come first or not
static void begin() {
  if (S->nmsg >= MAXMSG) { S->over = 1; --S->nmsg; }
  cur = &S->m[S->nmsg];
  cur->n = cur->total = 0; cur->opt = maybe;
  cur->out = DUMA_OUTPUT_STDOUT != 0; cur->err = DUMA_OUTPUT_STDERR != 0; cur->file = !DUMA_OUTPUT_FILE ? 0 : DUMA_OUTPUT_FILE == fname2 ? 2 : 1;
}
static void add(const char *s, int len, int name) {
  if (cur->n >= MAXPART || S->ntext + len > TEXT) { S->over = 1; return; }
  Part &p = cur->p[cur->n++];
  p.off = S->ntext; p.len = len; p.name = name;
  memcpy(S->text + S->ntext, s, len);
  S->ntext += len;
  cur->total += len;
}
// %s name, %a address (hexadecimal), %d size, %i int
static void expect(const char *fmt, ...) {
  begin();
  va_list ap; va_start(ap, fmt);
  for (const char *p = fmt; *p;) {
    char b[40]; int n;
    if (*p != '%') { const char *q = p; while (*q && *q != '%') ++q; add(p, q - p, 0); p = q; continue; }
    switch (p[1]) {
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "NULL"; add(s, xlen(s), 1); break; }
    case 'a': n = snprintf(b, sizeof b, "%lx", (unsigned long)va_arg(ap, void *)); add(b, n, 0); break;
    case 'd': n = snprintf(b, sizeof b, "%lu", (unsigned long)va_arg(ap, size_t)); add(b, n, 0); break;
    case 'i': n = snprintf(b, sizeof b, "%d", va_arg(ap, int)); add(b, n, 0); break;
    }
    p += 2;
  }
  va_end(ap);
  __sync_synchronize();
  ++S->nmsg;
}
// matches one message at t; returns the number of bytes it takes, -1 if it is not that message
static int match_at(const Msg &m, int i, int at, int cut, int kept, const char *t, int n, const char **why) {
  if (i == m.n) {
    if (cut && at > 4096) { *why = "a cut message is still too long"; return -1; }
    return at;
  }
  const Part &p = m.p[i];
  const char *s = S->text + p.off;
  int k = 0;
  while (k < p.len && at + k < n && t[at + k] == s[k]) ++k;
  if (k == p.len) {
    int r = match_at(m, i + 1, at + k, cut, kept + (p.name && p.len > 255), t, n, why);
    if (r >= 0) return r;
  }
  if (!p.name || m.total <= 2000) { *why = "different text"; return -1; }
  // what follows a cut name may look like its next character
  for (int j = k < p.len ? k : k - 1; j >= 0 && j > k - 4; --j) {
    if (!kept && j < 255 && p.len > 255) { *why = "a long name is nearly lost"; return -1; }
    int r = match_at(m, i + 1, at + j, 1, kept + (p.len > 255), t, n, why);
    if (r >= 0) return r;
  }
  return -1;
}
static int match(const Msg &m, const char *t, int n, const char **why) { return match_at(m, 0, 0, 0, 0, t, n, why); }

// ---------------------------------------------------------------- the program started
static char shm_name[4096];
static volatile int blocked_forever = 0;
static const char MARK[] = "<<start>>", HMARK[] = "<<handler>>";
// signals may cut any write
static void say_all(int fd, const char *b, size_t n) { while (n) { ssize_t k = write(fd, b, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return; b += k; n -= k; } }
static void handler(int) { say_all(1, HMARK, sizeof HMARK - 1); }
static char *big(Rng &r, long n) {
  // alphabetic, so that the end of a cut one can be told
  char *b = (char *)mmap(0, rup(n + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (long i = 0; i < n; ++i) b[i] = 'a' + (char)r.below(26);
  b[n] = 0;
  return b;
}
static char *odd(Rng &r, long n) {
  char *b = (char *)mmap(0, rup(n + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (long i = 0; i < n; ++i) b[i] = r.pct(20) ? "%%sdaxilc\\\"'()\n\t"[r.below(16)] : (char)r.range(1, 255);
  b[n] = 0;
  return b;
}
static const char *name(Rng &r, int longs) {
  if (r.below(100) < (u64)longs) return big(r, (long)(r.pct(50) ? r.range(900, 1500) : r.pct(50) ? r.range(1500, 4200) : r.range(4200, 60000)));
  switch (r.below(8)) {
  case 0: return "";
  case 1: return "a";
  case 2: return odd(r, r.range(1, 60));
  case 3: return odd(r, r.range(60, 600));
  case 4: return big(r, r.range(200, 850));
  case 5: return "%s%d%a%n";
  case 6: return "/usr/src/some where/file name.cpp";
  default: return "src/main.c";
  }
}
static int line(Rng &r) {
  switch (r.below(10)) {
  case 0: return INT_MAX;
  case 1: return INT_MIN;
  case 2: return INT_MIN + 1;
  case 3: return -1;
  case 4: return (int)r.range(1, 9);
  case 5: return 10;
  case 6: { static const int p[] = {9, 99, 100, 999, 1000, 9999, 10000, 65535, 65536, 1000000, 99999999, 100000000, 2147483646}; return p[r.below(13)]; }
  case 7: return -(int)r.range(2, 100000);
  default: return (int)r.range(1, 200000);
  }
}
static size_t anysize(Rng &r) { size_t v = r.next() >> r.below(64); if (r.pct(20)) v = (size_t)1 << r.below(64); if (r.pct(20)) v -= 1; return v ? v : 1; }
static int count_fds() {
  int n = 0;
  for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) ++n;
  return n;
}
struct Bl { char *p; size_t n; const char *f; int l; };
static Bl bl[64];
static int nbl = 0;
static int threaded = 0;
static void fatal(Rng &r, int longs);
static void *thr(void *a) { fatal(*(Rng *)a, 0); return 0; }
static volatile long spin;
static int show, lkdet = HAVE_FL;

// does not come back
static void fatal(Rng &r, int longs) {
  const char *f = name(r, longs), *g = name(r, longs), *h = name(r, longs / 4);
  int l = line(r), k = line(r);
  if (!l) l = 5;
  (void)h;
  S->fatal = SIGILL;
  int kind = (int)r.below(14);
  static const char *an[] = {"malloc()", "calloc()", "memalign()", "valloc()", "scalar new", "vector new[]", "member scalar new", "member vector new[]"};
  static const enum _DUMA_Allocator ak[] = {EFA_MALLOC, EFA_CALLOC, EFA_MEMALIGN, EFA_VALLOC, EFA_NEW_ELEM, EFA_NEW_ARRAY, EFA_MEMBER_NEW_ELEM, EFA_MEMBER_NEW_ARRAY};
  char *p = 0; size_t n = 0;
  int which = (int)r.below(8);
  if (kind <= 6) {
    // these need a block
    n = r.range(1, 20000);
    if (show) { if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", n, f, l); else expect("\nDUMA: Allocating %d byte(s).", n); }
    p = (char *)a_allocate(kind == 6 ? 16 : 1, n, 0, -1, kind == 2 ? ak[which] : EFA_MALLOC, DUMA_FAIL_ENV, f, l);
  }
  switch (kind) {
  case 0:   // twice
  case 1:
    if (show) { if (lkdet) expect("\nDUMA: Freeing %d byte(s) at %s(%i) (Allocated from %s(%i)).", n, g, k, f, l); else expect("\nDUMA: Freeing %d byte(s).", n); }
    a_free(p, g, k);
    { int re = r.pct(25);
    size_t sz = r.range(1, 30000);
    const char *fn = re ? "realloc" : kind ? "check" : "free";
    if (re && show) { maybe = 1; if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", sz, f, l); else expect("\nDUMA: Allocating %d byte(s).", sz); maybe = 0; }
    if (!lkdet) expect("\nDUMA Aborting: %s(%a): memory already freed.\n", fn, p);
    else if (k) expect("\nDUMA Aborting: %s(%a): memory already freed at %s(%i)\n", fn, p, g, k);
    else expect("\nDUMA Aborting: %s(%a): memory already freed; allocated from %s(%i)\n", fn, p, f, l);
    if (re) { a_realloc(p, sz, f, l); break; } }
    if (kind) duma_check(p); else a_free(p, f, l);
    break;
  case 2: { // mismatch
    int d; const char *dn[] = {"free()", "scalar delete", "vector delete[]", "member scalar delete", "member vector delete[]"};
    static const enum _DUMA_Allocator dk[] = {EFA_FREE, EFA_DEL_ELEM, EFA_DEL_ARRAY, EFA_MEMBER_DEL_ELEM, EFA_MEMBER_DEL_ARRAY};
    do d = (int)r.below(5); while (d == (which < 4 ? 0 : which - 3));
    if (lkdet) expect("\nDUMA Aborting: Free mismatch: allocator '%s' used  at %s(%i)\n  but  deallocator '%s' called at %s(%i)!\n", an[which], f, l, dn[d], g, k);
    else expect("\nDUMA Aborting: Free mismatch: allocator '%s' used  but  deallocator '%s' called!\n", an[which], dn[d]);
    a_deallocate(p, dk[d], g, k);
    break;
  }
  case 3: { // near a block
    char *q = p + r.range(1, n > 1 ? n - 1 : 1);
    if (!lkdet) expect("\nDUMA Aborting: free(%a): address not from DUMA or already freed. Address may be corrupted from %a.\n", q, p);
    else expect("\nDUMA Aborting: free(%a): address not from DUMA or already freed. Address may be corrupted from %a allocated from %s(%i)\n", q, p, f, l);
    if (n < 2) _exit(77);
    a_free(q, g, k);
    break;
  }
  case 4: { // regions overlap
    size_t len = r.range(2, n > 2 ? n : 2);
    if (n < 8) _exit(77);
    if (len > n / 2) len = n / 2;
    char *d = p + r.range(0, len - 1), *s = p + r.range(0, len - 1);
    if (d == s) d = s + 1;
    if (d > s && d - s >= (long)len) _exit(77);
    if (s > d && s - d >= (long)len) _exit(77);
    if (lkdet) expect("\nDUMA Aborting: memcpy(%a, %a, %d): memory regions overlap at %s(%i).\n", d, s, len, g, k);
    else expect("\nDUMA Aborting: memcpy(%a, %a, %d): memory regions overlap.\n", d, s, len);
    a_memcpy(d, s, len, g, k);
    break;
  }
  case 5: { // strcpy into itself
    if (n < 20) _exit(77);
    memset(p, 'x', n); p[n - 1] = 0;
    char *d = p + 3, *s = p; s[6] = 0;
    if (lkdet) expect("\nDUMA Aborting: strcpy(%a, %a): memory regions overlap at %s(%i).\n", d, s, g, k);
    else expect("\nDUMA Aborting: strcpy(%a, %a): memory regions overlap.\n", d, s);
    a_strcpy(d, s, g, k);
    break;
  }
  case 6: { // slack
    if (n % 16 == 0) _exit(77);
    int below = ((uintptr_t)p & 4095) && r.pct(50);
    if (below) p[-1] ^= 0x55; else p[n] ^= 0x55;
    if (below) {
      if (lkdet) expect("\nDUMA Aborting: ptr=%a: detected overwrite of ptrs no mans land below userSpace, size=%d alloced from %s(%i)\n", p, n, f, l);
      else expect("\nDUMA Aborting: ptr=%a: detected overwrite of ptrs no mans land below userSpace\n", p);
    } else if (lkdet) expect("\nDUMA Aborting: detected overwrite of no mans land above userSpace: ptr=%a, size=%d\nalloced from %s(%i)\n", p, n, f, l);
    else expect("\nDUMA Aborting: detected overwrite of no mans land above userSpace: ptr=%a\n", p);
    duma_check(p);
    break;
  }
  case 7: { // far from all blocks
    char *q = (char *)(r.pct(50) ? r.range(1, 60000) : r.next() | ((u64)1 << 63));
    const char *fn = "free";
    int w = (int)r.below(4);
    size_t sz = r.range(1, 100000);
    switch (w) {
    case 0: expect("\nDUMA Aborting: free(%a): address not from DUMA or already freed.\n", q); a_free(q, f, l); break;
    case 1: expect("\nDUMA Aborting: check(%a): address not from DUMA or already freed.\n", q); duma_check(q); break;
    case 2: expect("\nDUMA Aborting: malloc_usable_size(%a): address not from malloc.\n", q); a_usable(q); break;
    case 3:
      if (show) { maybe = 1; if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", sz, f, l); else expect("\nDUMA: Allocating %d byte(s).", sz); maybe = 0; }
      expect("\nDUMA Aborting: realloc(%a, %d): address not from malloc().\n", q, sz); a_realloc(q, sz, f, l); break;
    }
    (void)fn;
    break;
  }
  case 8: { // alignment
    size_t al; do al = anysize(r); while ((al & (al - 1)) == 0);
    n = r.range(1, 4000);
    if (show) { maybe = 1; if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", n, f, l); else expect("\nDUMA: Allocating %d byte(s).", n); maybe = 0; }
    if (lkdet) expect("\nDUMA Aborting: Alignment (=%d) is not a power of 2; requested from %s(%i)\n", al, f, l);
    else expect("\nDUMA Aborting: Alignment (=%d) is not a power of 2\n", al);
    a_memalign(al, n, f, l);
    break;
  }
  case 9: { // far too big
    do n = anysize(r); while (n <= ((size_t)-1) / 4);
    size_t al = (size_t)1 << r.below(62);
    if (show) { maybe = 1; if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", n, f, l); else expect("\nDUMA: Allocating %d byte(s).", n); maybe = 0; }
    expect("\nDUMA Aborting: Allocating %d byte(s) with alignment %d failed: too big\n", n, al);
    a_allocate(al, n, 0, -1, EFA_MEMALIGN, DUMA_FAIL_ENV, f, l);
    break;
  }
  case 10: { // an assertion, always a SIGSEGV
    S->fatal = SIGSEGV;
    expect("\nDUMA: DUMA_ASSERT(%s) failed at\n%s(%i)\n", g, f, l);
    _duma_assert(g, f, l);
    break;
  }
  case 11: {
    if (!env_i("VT_M0", 1) && lkdet) {
      if (show) { maybe = 1; expect("\nDUMA: Allocating %d byte(s) at %s(%i).", (size_t)0, f, l); expect(" This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0."); maybe = 0; }
      expect("\nDUMA Aborting: Allocating 0 bytes, probably a bug at %s(%i). See DUMA_ALLOW_MALLOC_0.\n", f, l);
      a_malloc(0, f, l);
    } else _exit(77);
    break;
  }
  case 12: { // strncpy and strcat
    if (r.pct(50)) {
      static char buf[100] = "abc";
      size_t len = r.range(4, 40);
      char *d = buf + r.range(1, 3), *s = buf;
      if (lkdet) expect("\nDUMA Aborting: strncpy(%a, %a, %d): memory regions overlap at %s(%i).\n", d, s, len, f, l);
      else expect("\nDUMA Aborting: strncpy(%a, %a, %d): memory regions overlap.\n", d, s, len);
      a_strncpy(d, s, len, f, l);
    } else {
      static char buf[100] = "abcdefg";
      char *d = buf, *s = buf + r.range(0, 6);
      if (s == d) s = d + 1;
      if (lkdet) expect("\nDUMA Aborting: strcat(%a, %a): memory regions overlap at %s(%i).\n", d, s, f, l);
      else expect("\nDUMA Aborting: strcat(%a, %a): memory regions overlap.\n", d, s);
      a_strcat(d, s, f, l);
    }
    break;
  }
  default: { // the table's check finds it at another call
    S->fatal = 0;
    S->nfds1 = count_fds();
    _exit(0);
  }
  }
  _exit(78);     // not stopped
}
static int child() {
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  int fd = (int)env_i("VT_SHM", -1);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  Rng r(env_u("VT_CSEED", 1));
  show = (int)env_i("DUMA_SHOW_ALLOC", 0);
  int longs = (int)env_i("VT_LONGS", 0);
  // from here on every byte is foretold
  say_all(1, MARK, sizeof MARK - 1);
  say_all(2, MARK, sizeof MARK - 1);
  if (env_s("DUMA_OUTPUT_FILE", 0)) {
    int x = open(env_s("DUMA_OUTPUT_FILE", 0), O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (x >= 0) { say_all(x, MARK, sizeof MARK - 1); close(x); }
  }
  S->nfds0 = count_fds();
  S->start_ok = 1;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  alarm(40);
  if (env_i("VT_TIMER", 0)) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = [](int) {};
    sigaction(SIGVTALRM, &sa, 0);
    sigaction(SIGUSR1, &sa, 0);
    timer_t t; struct sigevent se; memset(&se, 0, sizeof se);
    se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = SIGUSR1;
    timer_create(CLOCK_MONOTONIC, &se, &t);
    struct itimerspec it = {{0, 300000}, {0, 300000}};
    timer_settime(t, 0, &it, 0);
  }
  int steps = env_i("VT_TIMER", 0) == 2 ? (int)r.range(20, 40) : (int)r.below(12);
  for (int i = 0; i < steps; ++i) {
    if (r.pct(15)) {
      // switched by the program or a debugger
      switch (r.below(4)) {
      case 0: DUMA_OUTPUT_STDOUT = (int)r.below(2); break;
      case 1: DUMA_OUTPUT_STDERR = (int)r.below(2); break;
      case 2: DUMA_OUTPUT_FILE = 0; break;
      case 3: { const char *o = env_s("VT_FILE2", 0); if (o) { strcpy(fname2, o); DUMA_OUTPUT_FILE = fname2; } break; }
      }
      continue;
    }
    if (nbl && r.pct(45)) {
      int j = (int)r.below(nbl); Bl b = bl[j]; bl[j] = bl[--nbl];
      const char *f = name(r, longs); int l = line(r);
      if (show) { if (lkdet) expect("\nDUMA: Freeing %d byte(s) at %s(%i) (Allocated from %s(%i)).", b.n, f, l, b.f, b.l); else expect("\nDUMA: Freeing %d byte(s).", b.n); }
      a_free(b.p, f, l);
    } else {
      const char *f = name(r, longs); int l = line(r);
      if (!l) l = 1;
      size_t n = r.pct(10) ? r.range(1, 3000000) : r.range(1, 9000);
      if (r.pct(15) && env_i("VT_M0", 1)) n = 0;
      if (show) {
        if (lkdet) expect("\nDUMA: Allocating %d byte(s) at %s(%i).", n, f, l); else expect("\nDUMA: Allocating %d byte(s).", n);
        if (!n) expect(" This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0.");
      }
      Bl b; b.p = (char *)a_malloc(n, f, l); b.n = n; b.f = f; b.l = l;
      bl[nbl++] = b;
    }
  }
  int how = (int)env_i("VT_HOW", 0);
  if (how == 1) signal(SIGILL, handler);
  if (how == 2) signal(SIGILL, SIG_IGN);
  if (how == 3) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGILL); sigprocmask(SIG_BLOCK, &m, 0); }
  if (how == 5) {     // a report by the program's normal end
    S->fatal = 0;
    S->nfds1 = count_fds();
    S->eo = DUMA_OUTPUT_STDOUT != 0; S->ee = DUMA_OUTPUT_STDERR != 0; S->ef = !DUMA_OUTPUT_FILE ? 0 : DUMA_OUTPUT_FILE == fname2 ? 2 : 1;
    say_all(1, "<<end>>", 7);
    say_all(2, "<<end>>", 7);
    if (DUMA_OUTPUT_FILE) { int x = open(DUMA_OUTPUT_FILE, O_WRONLY | O_APPEND | O_CREAT, 0600); if (x >= 0) { say_all(x, "<<end>>", 7); close(x); } }
    exit(0);
  }
  S->nfds1 = count_fds();
  if (env_i("VT_THREAD", 0)) {
    // no allocation by the C library: the stack is given
    pthread_attr_t at; pthread_attr_init(&at);
    void *st = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pthread_attr_setstack(&at, st, 1 << 20);
    pthread_t t;
    threaded = 1;
    static Rng r2(1); r2 = r;
    int real = S->nmsg; (void)real;
    pthread_create(&t, &at, thr, &r2);
    if (r2.s & 1) for (;;) ++spin;
    pthread_join(t, 0);
    for (;;) pause();
  }
  fatal(r, longs);
  return 79;
}

// ---------------------------------------------------------------- the supervisor
static char self[4096], dir[3000];
static char out[4][1 << 20];
static int outn[4];
static long judged = 0, msgs = 0, fatals = 0, bytes = 0, cuts = 0, starts = 0, reports = 0;
struct Env { char b[40][4200]; char *v[60]; int n; };
static Env en;
static void E_(const char *k, const char *v) { snprintf(en.b[en.n], sizeof en.b[0], "%s=%s", k, v); en.v[en.n] = en.b[en.n]; en.v[++en.n] = 0; }
static void E_(const char *k, long v) { char t[30]; snprintf(t, sizeof t, "%ld", v); E_(k, t); }
static char desc[800];
static void say(char *b, size_t n) { snprintf(b, n, "%s", desc); }
static char ref[2][20000]; static int refn[2] = {-1, -1};
static int slurp(int fd, char *b, int max) { int n = 0; lseek(fd, 0, SEEK_SET); for (;;) { ssize_t k = read(fd, b + n, max - n); if (k <= 0) break; n += k; } return n; }
static char visb[4][700];
static const char *vis(const char *t, int n) {
  static int w = 0;
  char *b = visb[w++ & 3];
  int j = 0;
  for (int i = 0; i < n && j < 600; ++i) { unsigned char c = t[i]; if (c == '\n') b[j++] = '|'; else if (c < 32 || c > 126) j += snprintf(b + j, 6, "\\%02x", c); else b[j++] = c; }
  b[j] = 0;
  return b;
}
static int is_dir_clean(const char *d, const char *a, const char *b) {
  // nothing else was created
  int bad = 0;
  char buf[8192];
  int fd = open(d, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return 0;
  memset(buf, 0, sizeof buf);
  for (;;) {
    long n = syscall(SYS_getdents64, fd, buf, sizeof buf);
    if (n <= 0) break;
    for (long i = 0; i < n;) {
      struct D { u64 ino, off; unsigned short len; unsigned char t; char name[1]; } *e = (D *)(buf + i);
      i += e->len;
      if (xeq(e->name, ".") || xeq(e->name, "..") || xeq(e->name, a) || xeq(e->name, b)) continue;
      bad = 1;
    }
  }
  close(fd);
  return bad;
}
static void scenario(Rng &r, int slow) {
  int cfg_out = (int)r.below(3), cfg_err = (int)r.below(3), cfg_file = (int)r.below(4);
  // where the descriptors lead: own file each, both the same, closed
  int wire = (int)r.below(8);          // 0: 2>&1, 1: stdout closed, 2: stderr closed, 3: stdout is the output file, 6: stdin closed, else separate
  int how = (int)r.below(12); if (how > 5) how = 0;
  int thr = how == 0 && r.pct(15);
  int banner = (int)r.below(3);
  int sh = (int)r.below(2);
  int longs = r.pct(30) ? 60 : 0;
  int m0 = r.pct(30) ? 0 : 3;
  if (slow) { wire = 5; sh = 1; thr = 0; }
  if (thr) sh = 0;      // making a thread allocates
  if (wire == 3 && cfg_file != 2) cfg_file = 1;
  static char file[3300], file2[3300];
  snprintf(file, sizeof file, "%s/out put.txt", dir); snprintf(file2, sizeof file2, "%s/second", dir);
  unlink(file); unlink(file2);
  const char *unw = 0;
  if (cfg_file == 3) { unw = r.pct(50) ? "/nonexistent-dir/x/y" : dir; }
  static char pre[300]; int npre = 0;
  if ((cfg_file == 1 || cfg_file == 2) && r.pct(60)) {
    npre = (int)r.below(290);
    for (int i = 0; i < npre; ++i) pre[i] = 'A' + i % 26;
    int x = open(file, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(x, pre, npre) != npre) npre = 0; close(x);
  }
  bool fresh = access(file, F_OK) != 0;
  int shm = memfd_create("shm", 0); if (ftruncate(shm, sizeof(Shared))) _exit(5);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
  int fo, fe, pp[2] = {-1, -1};
  if (slow == 2) {     // a terminal: it takes parts of a message when signals arrive
    pp[0] = posix_openpt(O_RDWR | O_NOCTTY);
    if (pp[0] < 0 || grantpt(pp[0]) || unlockpt(pp[0])) _exit(5);
    char pn[100]; if (ptsname_r(pp[0], pn, sizeof pn)) _exit(5);
    pp[1] = open(pn, O_RDWR | O_NOCTTY); if (pp[1] < 0) _exit(5);
    struct termios tm; tcgetattr(pp[1], &tm); cfmakeraw(&tm); tcsetattr(pp[1], TCSANOW, &tm);
    fo = pp[1]; longs = 40; how = r.pct(50) ? 5 : 0;
  } else if (slow) { if (pipe(pp)) _exit(5); fcntl(pp[1], F_SETPIPE_SZ, 4096); fo = pp[1]; }
  else if (wire == 3) fo = open(file, O_RDWR | O_CREAT | O_APPEND, 0600);
  else { fo = memfd_create("out", 0); fcntl(fo, F_SETFL, O_APPEND); }
  fe = wire == 0 ? dup(fo) : memfd_create("err", 0); fcntl(fe, F_SETFL, O_APPEND);
  int in = memfd_create("in", 0), stray[3];
  for (int i = 0; i < 3; ++i) stray[i] = memfd_create("stray", 0);
  en.n = 0;
  E_("VT_SHM", 60); E_("VT_CSEED", (long)(r.next() >> 2)); E_("VT_LONGS", longs); E_("VT_M0", m0); E_("VT_FILE2", file2);
  E_("VT_HOW", how); E_("VT_THREAD", thr); E_("VT_TIMER", slow);
  E_("DUMA_MALLOC_0_STRATEGY", m0); E_("DUMA_SHOW_ALLOC", sh);
  if (banner == 0) E_("DUMA_DISABLE_BANNER", 1); else if (banner == 1) E_("DUMA_DISABLE_BANNER", (long)0);
  if (cfg_out) E_("DUMA_OUTPUT_STDOUT", cfg_out == 1 ? 1 : (long)0);
  if (cfg_err) E_("DUMA_OUTPUT_STDERR", cfg_err == 1 ? 1 : (long)0);
  if (slow) { E_("DUMA_OUTPUT_STDOUT", 1); cfg_out = 1; }
  if (cfg_file == 3) E_("DUMA_OUTPUT_FILE", unw); else if (cfg_file) E_("DUMA_OUTPUT_FILE", file);
  snprintf(desc, sizeof desc, "stdout %d stderr %d file %d, wiring %d, end %d, thread %d, banner %d, log %d, long names %d, zero strategy %d%s", cfg_out, cfg_err, cfg_file, wire, how, thr, banner, sh, longs, m0, slow == 2 ? ", slow terminal" : slow ? ", slow reader" : "");
  pid_t pid = fork();
  if (!pid) {
    if (chdir(dir)) _exit(5);
    // order: nothing below 60 is needed afterwards
    int a[8] = {shm, fo, fe, in, stray[0], stray[1], stray[2], -1};
    for (int i = 0; i < 7; ++i) a[i] = fcntl(a[i], F_DUPFD, 100);
    for (int i = 0; i < 100; ++i) close(i);
    dup2(a[3], 0); dup2(a[1], 1); dup2(a[2], 2); dup2(a[4], 3); dup2(a[5], 4); dup2(a[6], 9); dup2(a[0], 60);
    for (int i = 100; i < 140; ++i) close(i);
    if (wire == 1) close(1);
    if (wire == 2) close(2);
    if (wire == 6) close(0);
    char *av[] = {self, (char *)"child", 0};
    execve(self, av, en.v);
    _exit(6);
  }
  static char sl[1 << 20]; int nsl = 0;
  if (slow) {
    close(pp[1]);
    for (;;) {
      struct timespec ts = {0, 1500000}; nanosleep(&ts, 0);
      ssize_t k = read(pp[0], sl + nsl, nsl + 700 < (int)sizeof sl ? 700 : 0);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) break;
      nsl += k;
    }
    close(pp[0]);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  // what arrived where
  // 0: stdout, 1: stderr, 2: file, 3: second file
  outn[0] = outn[1] = outn[2] = outn[3] = 0;
  if (slow) { memcpy(out[0], sl, nsl); outn[0] = nsl; } else if (wire != 3) outn[0] = slurp(fo, out[0], sizeof out[0]);
  outn[1] = wire == 0 ? 0 : slurp(fe, out[1], sizeof out[1]);
  bool have[4] = {true, true, false, false};
  struct stat sb;
  mode_t mode = 0;
  for (int i = 2; i < 4; ++i) {
    int x = open(i == 2 ? file : file2, O_RDONLY);
    if (x >= 0) { have[i] = true; outn[i] = slurp(x, out[i], sizeof out[i]); if (i == 2) { fstat(x, &sb); mode = sb.st_mode & 0777; } close(x); }
  }
  auto cleanup = [&] { if (!slow) close(fo); close(fe); close(in); for (int i = 0; i < 3; ++i) close(stray[i]); munmap(S, sizeof(Shared)); close(shm); };
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 77)) { cleanup(); return; }
  ++judged;
  if (!S->start_ok) { viol("DIAG", "the program did not reach main: status %x, %s", st, vis(out[1], outn[1])); cleanup(); return; }
  if (S->over) { stat_("overflow 1"); cleanup(); return; }
  // -- nothing else
  if (lseek(in, 0, SEEK_END) > 0) viol("DIAG", "something was written to descriptor 0");
  for (int i = 0; i < 3; ++i) if (lseek(stray[i], 0, SEEK_END) > 0) viol("DIAG", "something was written to a foreign descriptor");
  if (is_dir_clean(dir, "out put.txt", "second")) viol("DIAG", "another file was created");
  if (have[2] && fresh && cfg_file != 0 && wire != 3 && (mode & 077)) viol("DIAG", "the output file has mode %o", mode);
  if (S->nfds0 != S->nfds1) viol("DIAG", "%d descriptors are open at first, %d after the messages", S->nfds0, S->nfds1);
  if (cfg_file == 0 && have[2]) viol("DIAG", "an output file was written that was not asked for");
  // -- the end
  const char *e = 0;
  bool stop = S->fatal != 0;
  if (!stop) { if (!WIFEXITED(st) || WEXITSTATUS(st)) e = "exit 0"; }
  else if (S->fatal == SIGSEGV) { if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGSEGV) e = "SIGSEGV"; }
  else if (how == 1 || how == 2 || how == 3) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 255) e = "_exit(-1) (SIGILL handled, ignored or blocked)"; }
  else if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGILL) e = "SIGILL";
  if (e) viol("DIAG", "expected the end by %s, the program %s %d; expected message: %s", e, WIFEXITED(st) ? "exited with" : "was ended by signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st),
              S->nmsg ? vis(S->text + S->m[S->nmsg - 1].p[0].off, 200) : "none");
  if (stop) ++fatals;
  // -- every sink
  const char *last = 0; int lastn = -1;
  for (int s = 0; s < 4; ++s) {
    if (s == 0 && (wire == 1 || wire == 3)) continue;
    if (s == 1 && (wire == 0 || wire == 2)) continue;
    if (s >= 2 && !have[s]) {
      bool want = false;
      for (int i = 0; i < S->nmsg; ++i) if (S->m[i].file) want = true;
      if (s == 2 && want && cfg_file != 3 && cfg_file && !have[3]) viol("DIAG", "the output file does not exist");
      continue;
    }
    const char *t = out[s]; int n = outn[s], at = 0;
    bytes += n;
    const char *sn[] = {"stdout", "stderr", "the file", "the second file"};
    if (s == 2) {
      if (n < npre || memcmp(t, pre, npre)) { viol("DIAG", "the output file's former contents are gone: %s", vis(t, n)); continue; }
      at = npre;
    }
    if (s != 3) {
      // start-up text up to the mark
      int m = at;
      while (m < n && !(n - m >= (int)sizeof MARK - 1 && !memcmp(t + m, MARK, sizeof MARK - 1))) ++m;
      if (m >= n) { if (s != 2) viol("DIAG", "%s does not hold the program's own output: %s", sn[s], vis(t, n)); continue; }
      bool on = s == 0 ? cfg_out == 1 : s == 1 ? cfg_err != 2 : cfg_file != 0;
      bool alone = wire != 0 && wire != 3;
      int b = banner != 0;
      const char *x = t + at; int xn = m - at;
      ++starts;
      if (alone || (wire == 3 && s == 1) || (wire == 0 && s == 2)) {
        if (!on) { if (xn) viol("DIAG", "start-up text on %s, which is switched off: %s", sn[s], vis(x, xn)); }
        else if (refn[b] >= 0) {
          // the log of what runs before main follows or is between
          if (!sh && (xn != refn[b] || memcmp(x, ref[b], xn))) viol("DIAG", "start-up text on %s (%d bytes) differs from the usual one (%d bytes): %s", sn[s], xn, refn[b], vis(x, xn));
        }
      }
      at = m;
      while (n - at >= (int)sizeof MARK - 1 && !memcmp(t + at, MARK, sizeof MARK - 1)) at += sizeof MARK - 1;
    }
    bool bad = false;
    for (int i = 0; i < S->nmsg && !bad; ++i) {
      const Msg &m = S->m[i];
      // copies of the message that go here
      int c = 0;
      bool to2 = false;   // file in force at that time: the second one from the switch on
      (void)to2;
      if (s == 0) c = m.out + (wire == 0 ? m.err : 0);
      if (s == 1) c = m.err;
      if (s >= 2) c = -1;
      if (s >= 2) {
        if (m.file == (s == 2 ? 1 : 2)) c = 1; else c = 0;
        if (s == 2 && wire == 3) c += m.out;
      }
      for (; c > 0 && !bad; --c) {
        const char *why = "";
        int k = match(m, t + at, n - at, &why);
        if (k < 0 && m.opt) break;
        if (k < 0) {
          viol("DIAG", "message %d of %d on %s: %s; expected %s, found %s", i + 1, S->nmsg, sn[s], why, vis(S->text + m.p[0].off, m.total < 500 ? m.total : 500), vis(t + at, n - at < 500 ? n - at : 500));
          bad = true;
        } else { at += k; ++msgs; if (k < m.total) ++cuts; situation(mix(mix(m.n, s), mix(m.total > 2000, S->fatal) + how + wire * 16 + cfg_file * 256)); }
      }
    }
    if (bad) continue;
    if (s == (wire == 3 ? 2 : 0) && how == 1 && S->fatal == SIGILL && have[s]) {
      if (n - at >= (int)sizeof HMARK - 1 && !memcmp(t + at, HMARK, sizeof HMARK - 1)) at += sizeof HMARK - 1;
      else if (wire != 1) { viol("DIAG", "the signal's handler did not run once after the message: %s", vis(t + at, n - at)); continue; }
    }
    if (how == 5) {
      // a leak report may follow the program's mark
      const char *z = t + at;
      while (z < t + n && !(t + n - z >= 7 && !memcmp(z, "<<end>>", 7))) ++z;
      if (z != t + at) viol("DIAG", "surplus output on %s: %s", sn[s], vis(t + at, z - t - at));
      // the report at the end: the same everywhere it goes to
      if (wire >= 4) {
        bool on = s == 0 ? S->eo : s == 1 ? S->ee : S->ef == s - 1;
        int rest = z < t + n ? (int)(t + n - z) - 7 : 0;
        if (!on) { if (rest > 0) viol("DIAG", "report at the end on %s, which is switched off: %s", sn[s], vis(z + 7, rest)); }
        else if (lastn < 0) { lastn = rest; last = z + 7; ++reports; }
        else if (lastn != rest || memcmp(last, z + 7, rest > 0 ? rest : 0)) viol("DIAG", "report at the end on %s (%d bytes) differs from that on another channel (%d bytes): %s", sn[s], rest, lastn, vis(z + 7, rest));
      }
      continue;
    }
    if (at != n) viol("DIAG", "surplus output on %s: %s", sn[s], vis(t + at, n - at));
  }
  for (int i = 0; i < S->nmsg; ++i) situation(mix(S->m[i].p[0].len, S->m[i].total > 2000 ? 2 : S->m[i].n));
  cleanup();
}
// the start-up text of a program that does nothing else
static void reference(int b) {
  int fe = memfd_create("err", 0);
  pid_t pid = fork();
  if (!pid) {
    en.n = 0;
    E_("DUMA_DISABLE_BANNER", b ? (long)0 : 1);
    int x = open("/dev/null", O_RDWR);
    dup2(x, 0); dup2(x, 1); dup2(fe, 2);
    char *av[] = {self, (char *)"nothing", 0};
    execve(self, av, en.v);
    _exit(6);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  refn[b] = slurp(fe, ref[b], sizeof ref[b] - 1);
  ref[b][refn[b]] = 0;
  close(fe);
  if (b) {
    if (!xfind(ref[b], "DUMA ") || !xfind(ref[b], "Copyright (C) 1987-1999 Bruce Perens")) viol("DIAG", "start-up message: %s", vis(ref[b], refn[b]));
    else {
      const char *p = xfind(ref[b], "Bruce Perens");
      if (xfind(p + 1, "Bruce Perens")) viol("DIAG", "start-up message is shown twice: %s", vis(ref[b], refn[b]));
      // apart from it, the text is that without
      if (refn[b] <= refn[0]) viol("DIAG", "start-up message is missing");
    }
  } else if (xfind(ref[b], "Copyright")) viol("DIAG", "start-up message in spite of DUMA_DISABLE_BANNER: %s", vis(ref[b], refn[b]));
}
int main(int argc, char **argv) {
  if (argc > 1 && xeq(argv[1], "nothing")) {
#ifdef DUMA_EXPLICIT_INIT
    duma_init();
#endif
    _exit(0);
  }
  if (argc > 1 && xeq(argv[1], "child")) return child();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = say;
  ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
  if (k <= 0) _exit(5);
  self[k] = 0;
  snprintf(dir, sizeof dir, "%s/diag-%d", env_s("VT_DIR", "/nonexistent"), (int)getpid());
  if (mkdir(dir, 0700)) _exit(5);
  reference(0); reference(1);
  Rng r(env_u("VT_SEED", 1));
  long n = env_i("VT_CASES", 200);
  for (long i = 0; i < n && vt_viols < 10; ++i) scenario(r, i % 25 == 24 ? 1 + (int)(i / 25 & 1) : 0);
  char b[3300];
  snprintf(b, sizeof b, "%s/out put.txt", dir); unlink(b);
  snprintf(b, sizeof b, "%s/second", dir); unlink(b);
  rmdir(dir);
  stat_("judged %ld", judged); stat_("messages %ld", msgs); stat_("stops %ld", fatals); stat_("bytes %ld", bytes); stat_("cut %ld", cuts); stat_("endreports %ld", reports); stat_("starts %ld", starts);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
