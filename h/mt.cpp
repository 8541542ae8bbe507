// Threads: ownership of pages, contents, guards, the allocation log and the reports, under injected delays.
#include <atomic>
#include <sched.h>
#include "engine.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#ifdef VT_TSAN
#define TSAN 1
#else
#define TSAN 0
#endif
enum { MAXT = 16, MAXB = 220, NBOX = 24 };
static int NT, delaypct, showalloc, pfree, noprobe;
static long nops;
struct Rec { char *p; size_t sz; int kind; u64 pat; u32 id; };   // id: line number, unique
struct Th { int id; Rng r{1}; Rec b[MAXB]; int n; u32 ctr; long ops, handed, taken, allocs, frees, child; pthread_t t; char what[160]; };
static Th th[MAXT];
static __thread Th *me;
static void ctx(char *b, size_t n) { snprintf(b, n, "thread %d: %s", me ? me->id : -1, me ? me->what : ""); }
static std::atomic<long> ndelays{0}, nlocks{0}, nswitch{0}, nviol{0};
static std::atomic_flag vl = ATOMIC_FLAG_INIT;
#define MV(...) do { while (vl.test_and_set()) sched_yield(); viol(__VA_ARGS__); vl.clear(); } while (0)

// ------------------------------------------------------------ injected delays, lock events
static __thread u64 drng = 0;
static void delay() {
  if (!delaypct || !me) return;   // (nanosleep is a cancellation point)
  if (!drng) drng = 88172645463325252ull ^ ((u64)(uintptr_t)&drng * 0x9E3779B97F4A7C15ull) ^ env_u("VT_SEED", 1);
  drng ^= drng << 13; drng ^= drng >> 7; drng ^= drng << 17;
  if ((int)(drng % 100) >= delaypct) return;
  ndelays.fetch_add(1, std::memory_order_relaxed);
  u64 k = (drng >> 20) % 10;
  if (k < 7) sched_yield(); else { struct timespec ts = {0, (long)(1000 * (1 + (drng >> 30) % 60))}; nanosleep(&ts, 0); }
}
static std::atomic<u32> lastowner{0}; static std::atomic<u64> roll{0};
static void acquired() {
  if (!me) return;
  nlocks.fetch_add(1, std::memory_order_relaxed);
  u32 o = (u32)me->id + 1;
  if (lastowner.exchange(o, std::memory_order_relaxed) != o) nswitch.fetch_add(1, std::memory_order_relaxed);
  u64 h = (roll.load(std::memory_order_relaxed) * 17 + o) & 0xffffffffull;
  roll.store(h, std::memory_order_relaxed);
  // the order in which threads entered the last times
  if (!TSAN) situation(mix(h & 0xfffff, 4242));
}
#ifdef VT_WRAP
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_mprotect(void *, size_t, int);
int __real_munmap(void *, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { delay(); void *r = __real_mmap(a, n, p, f, d, o); delay(); return r; }
int __wrap_mprotect(void *a, size_t n, int p) { delay(); int r = __real_mprotect(a, n, p); delay(); return r; }
int __wrap_munmap(void *a, size_t n) { delay(); int r = __real_munmap(a, n); delay(); return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { delay(); int r = __real_pthread_mutex_lock(m); if (!r) acquired(); delay(); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { delay(); int r = __real_pthread_mutex_trylock(m); if (!r) acquired(); delay(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { delay(); int r = __real_pthread_mutex_unlock(m); delay(); return r; }
}
#endif

// ------------------------------------------------------------ who owns a page
struct Page { std::atomic<u64> key; std::atomic<int> owner; };
enum { NPAGE = 1 << 21, DEADPAGE = -1 };
static Page *pages;
static std::atomic<long> npages{0};
static Page *page(uintptr_t a) {
  u64 k = a / PG;
  for (u64 i = (k * 0x9E3779B97F4A7C15ull) >> 43;; ++i) {
    Page &p = pages[i & (NPAGE - 1)];
    u64 c = p.key.load();
    if (c == k) return &p;
    if (!c) { if (p.key.compare_exchange_strong(c, k)) { if (npages.fetch_add(1) > NPAGE * 3 / 4) { stat_("toomanypages 1"); _exit(3); } return &p; } if (c == k) return &p; }
  }
}
static void range(const Rec &b, uintptr_t &lo, uintptr_t &hi) { lo = rdn((uintptr_t)b.p); hi = b.sz ? rup((uintptr_t)b.p + b.sz) : lo + PG; }
static void claim(const Rec &b) {
  uintptr_t lo, hi; range(b, lo, hi);
  for (; lo < hi; lo += PG) {
    int o = 0;
    if (!page(lo)->owner.compare_exchange_strong(o, me->id + 1)) {
      if (o == DEADPAGE) MV("THREAD", "%zu-byte block %p reuses freed memory", b.sz, b.p);
      else MV("THREAD", "%zu-byte block %p shares memory with a block of thread %d", b.sz, b.p, o - 1);
    }
  }
}
static void give(const Rec &b, int to) {
  uintptr_t lo, hi; range(b, lo, hi);
  for (; lo < hi; lo += PG) page(lo)->owner.store(to);
}

// ------------------------------------------------------------ blocks
static u8 patb(const Rec &b, size_t i) { return (u8)(b.pat + i * 37 + (i >> 8)); }
static void fill(Rec &b) { b.pat = me->r.next(); for (size_t i = 0; i < b.sz; ++i) b.p[i] = (char)patb(b, i); }
static void verify(const Rec &b, const char *p, size_t n, const char *when) {
  for (size_t i = 0; i < n && i < b.sz; ++i) if ((u8)p[i] != patb(b, i)) { MV("THREAD", "byte %zu of %zu-byte block %p from %s changed (%s)", i, b.sz, b.p, kind_name(b.kind), when); return; }
}
static void probe(const Rec &b) {
  if (TSAN || noprobe) return;
  if (!b.sz) { if (!dead(b.p)) MV("THREAD", "zero-size block %p is accessible", b.p); return; }
  uintptr_t e = rup((uintptr_t)b.p + b.sz), l = rdn((uintptr_t)b.p) - PG;
  bool pb = env_i("DUMA_PROTECT_BELOW", 0) != 0;
  if (!pb && !dead((char *)e)) MV("THREAD", "page behind block %p+%zu is accessible", b.p, b.sz);
  if (pb && !dead((char *)l + PG - 1)) MV("THREAD", "page below block %p+%zu is accessible", b.p, b.sz);
}
// the log's numbers: unique per call
static u32 newid() { return ((u32)(me->id + 1) << 25) | ++me->ctr; }
static bool alloc_kind(int k) {
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
  if (k == K_MALLOC || k == K_CALLOC || k == K_MEMALIGN || k == K_PMEMALIGN || k == K_VALLOC || k == K_ALIGNED || k == K_PVALLOC || k == K_STRDUP || k == K_REALLOC0) return false;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
  if (k >= K_NEW && k <= K_DARRN) return false;
#endif
#if !HAVE_FL
  if (k == K_DNEW || k == K_DNEWN || k == K_DARR || k == K_DARRN) return false;
#endif
  if (showalloc && !kind_has_fl(k)) return false;
  if (k == K_MNEW || k == K_MARR || k == K_XC) return false;
  return true;
}
static size_t psize(Rng &r) {
  u64 k = r.below(100);
  if (k < 5 && !showalloc) return 0;
  if (k < 50) return r.range(1, 100);
  if (k < 70) return PG - 5 + r.below(10);
  return r.range(1, 3 * PG);
}
static void alloc_one() {
  Th &t = *me;
  int k; do k = (int)t.r.below(K_MNEW); while (!alloc_kind(k));
  Rec b; b.kind = k; b.sz = psize(t.r); b.id = kind_has_fl(k) ? newid() : 0;
  const char *f = FILES[t.id % NFILES]; int l = (int)b.id;
  size_t sz = b.sz, al = (size_t)1 << t.r.below(9);
  int want = -1;
  char str[120]; size_t sl = 0;
  if (k == K_STRDUP || k == K_DSTRDUP) { sl = t.r.below(100); for (size_t i = 0; i < sl; ++i) str[i] = (char)t.r.range(1, 255); str[sl] = 0; b.sz = sl + 1; }
  if (k == K_PVALLOC) b.sz = rup(sz);
  void *p = 0;
  snprintf(t.what, sizeof t.what, "op %ld %s(%zu)", t.ops, kind_name(k), sz);
  switch (k) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
  case K_MALLOC: p = malloc(sz); break;
  case K_CALLOC: p = calloc(1, sz); want = 0; break;
  case K_MEMALIGN: p = memalign(al, sz); break;
  case K_PMEMALIGN: if (posix_memalign(&p, 8 * al, sz)) p = 0; break;
  case K_VALLOC: p = valloc(sz); break;
  case K_ALIGNED: p = aligned_alloc(al, sz); break;
  case K_PVALLOC: p = pvalloc(sz); break;
  case K_STRDUP: p = strdup(str); break;
  case K_REALLOC0: p = realloc(0, sz); break;
#endif
  case K_DMALLOC: p = a_malloc(sz, f, l); break;
  case K_DCALLOC: p = a_calloc(sz, 1, f, l); want = 0; break;
  case K_DMEMALIGN: p = a_memalign(al, sz, f, l); break;
  case K_DPMEMALIGN: if (a_posix_memalign(&p, 8 * al, sz, f, l)) p = 0; break;
  case K_DVALLOC: p = a_valloc(sz, f, l); break;
  case K_DSTRDUP: p = a_strdup(str, f, l); break;
  case K_DREALLOC0: p = a_realloc(0, sz, f, l); break;
#ifndef DUMA_NO_CPP_SUPPORT
  case K_NEW: p = ::operator new(sz); break;
  case K_NEWN: p = ::operator new(sz, std::nothrow); break;
  case K_ARR: p = ::operator new[](sz); break;
  case K_ARRN: p = ::operator new[](sz, std::nothrow); break;
#if HAVE_FL
  case K_DNEW: p = ::operator new(sz, f, l); break;
  case K_DNEWN: p = ::operator new(sz, std::nothrow, f, l); break;
  case K_DARR: p = ::operator new[](sz, f, l); break;
  case K_DARRN: p = ::operator new[](sz, std::nothrow, f, l); break;
#endif
#endif
  }
  ++t.allocs;
  b.p = (char *)p;
  if (!p) { MV("THREAD", "%s(%zu) returns NULL", kind_name(k), sz); return; }
  claim(b);
  if (b.sz) {
    if (k == K_STRDUP || k == K_DSTRDUP) { for (size_t i = 0; i <= sl; ++i) if (b.p[i] != str[i]) { MV("THREAD", "strdup differs"); break; } }
    else {
      int w = want == 0 ? 0 : (int)env_i("DUMA_FILL", 255);
      if (w >= 0) for (size_t i = 0; i < sz; ++i) if ((u8)b.p[i] != (u8)w) { MV("THREAD", "byte %zu of new %zu-byte block is %02x", i, sz, (u8)b.p[i]); break; }
    }
    fill(b);
  }
  if (t.r.pct(10)) probe(b);
  t.b[t.n++] = b;
}
static u32 freeids[2];
static void free_rec(Rec b) {
  Th &t = *me;
  u32 id = newid();
  const char *f = FILES[(t.id + 1) % NFILES]; int l = (int)id;
  snprintf(t.what, sizeof t.what, "op %ld free of %s %p+%zu", t.ops, kind_name(b.kind), b.p, b.sz);
  verify(b, b.p, b.sz, "before free");
  if (t.r.pct(10)) probe(b);
  give(b, pfree < 0 ? DEADPAGE : 0);
  ++t.frees;
  switch (kind_fam(b.kind)) {
  case F_C:
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
    if (!showalloc && t.r.pct(50)) free(b.p); else
#endif
    a_free(b.p, f, l);
    break;
#ifndef DUMA_NO_CPP_SUPPORT
#if HAVE_FL
  case F_NEW: if (!showalloc && t.r.pct(50)) ::operator delete(b.p); else ::operator delete(b.p, f, l); break;
  default: if (!showalloc && t.r.pct(50)) ::operator delete[](b.p); else ::operator delete[](b.p, f, l); break;
#else
  case F_NEW: ::operator delete(b.p); break;
  default: ::operator delete[](b.p); break;
#endif
#else
  default: break;
#endif
  }
  if (pfree < 0 && b.sz && t.r.pct(20) && !TSAN && !noprobe && !dead(b.p)) MV("THREAD", "freed block %p+%zu is accessible", b.p, b.sz);
}
static void realloc_one() {
  Th &t = *me;
  if (!t.n) return;
  int i = (int)t.r.below(t.n);
  Rec b = t.b[i];
  if (kind_fam(b.kind) != F_C || !b.sz) return;
  size_t nz = psize(t.r); if (!nz) nz = 1;
  u32 id = newid();
  snprintf(t.what, sizeof t.what, "op %ld realloc of %p+%zu to %zu", t.ops, b.p, b.sz, nz);
  give(b, pfree < 0 ? DEADPAGE : 0);
  Rec n = b; n.sz = nz;
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
  if (!showalloc && t.r.pct(50)) { n.p = (char *)realloc(b.p, nz); n.kind = K_REALLOC; n.id = 0; } else
#endif
  { n.p = (char *)a_realloc(b.p, nz, FILES[t.id % NFILES], (int)id); n.kind = K_DREALLOC; n.id = id; }
  ++t.allocs; ++t.frees;
  if (!n.p) { MV("THREAD", "realloc returns NULL"); t.b[i] = t.b[--t.n]; return; }
  claim(n);
  verify(b, n.p, nz, "after realloc");
  fill(n);
  t.b[i] = n;
}
struct Box { std::atomic<int> st; Rec r; };
static Box box[NBOX];
static void hand() {
  Th &t = *me;
  Box &x = box[t.r.below(NBOX)];
  int e = 0;
  if (t.n && t.r.pct(50)) {
    if (!x.st.compare_exchange_strong(e, 1)) return;
    x.r = t.b[--t.n]; ++t.handed; x.st.store(2);
  } else if (t.n < MAXB - 2) {
    e = 2;
    if (!x.st.compare_exchange_strong(e, 1)) return;
    Rec b = x.r; ++t.taken; x.st.store(0);
    verify(b, b.p, b.sz, "after hand-over");
    if (t.r.pct(60)) free_rec(b); else { give(b, t.id + 1); t.b[t.n++] = b; }
  }
}
static std::atomic<long> xallocs{0}, xthreads{0};     // made by other threads
static void *short_thread(void *a) {
  long k = (long)a;
  xthreads.fetch_add(1); xallocs.fetch_add(1);
  // thread start and end allocate and release in the C library, too
  void *p = a_malloc(10 + k, "short.c", (int)(((u32)15 << 27) | 0));
  ((char *)p)[9 + k] = 1;
  a_free(p, "short.c", 0);
  return 0;
}
// a request to cancel a thread has to wait until the thread is outside of the library: none of its functions is a cancellation point
static std::atomic<int> cancelled{0};
static void in_library(void *v) { MV("THREAD", "a thread was cancelled inside of the library, in %s", *(const char *volatile *)v); }
static void *cancel_thread(void *a) {
  static const char *volatile nm[64];
  static std::atomic<int> slot{0};
  const char *volatile *w = &nm[slot.fetch_add(1) % 64];
  char *p, *volatile q; void *m;
  *w = "nothing";
  pthread_cancel(pthread_self());
  pthread_cleanup_push(in_library, (void *)w);
  xthreads.fetch_add(1);
  for (int i = 0; i < (long)a; ++i) {
    xallocs.fetch_add(5);
    *w = "malloc"; p = (char *)a_malloc(10, "cancel.c", 1); *w = "strdup"; q = a_strdup("abc", "cancel.c", 2); *w = "realloc"; p = (char *)a_realloc(p, 4000, "cancel.c", 3);
    *w = "free"; a_free(p, "cancel.c", 4); a_free(q, "cancel.c", 5); *w = "check"; p = (char *)a_calloc(3, 5, "cancel.c", 6); DUMA_CHECK(p);
    *w = "checkAll"; DUMA_CHECKALL(); *w = "posix_memalign"; if (!a_posix_memalign(&m, 16, 16, "cancel.c", 7)) a_free(m, "cancel.c", 8);
#ifndef DUMA_NO_CPP_SUPPORT
    xallocs.fetch_add(1); *w = "new"; char *n = (char *)::operator new(40); *w = "delete"; ::operator delete(n);
#endif
    if (i == 1) { *w = "report"; a_delframe(); }
    *w = "free"; a_free(p, "cancel.c", 9); *w = "memcpy"; memcpy(&m, &w, sizeof m);
  }
  pthread_cleanup_pop(0);
  cancelled.fetch_add(1);
  pthread_testcancel();
  MV("THREAD", "a request to cancel a thread got lost");
  return 0;
}
static void cancel_some(int n) {
  pthread_t c;
  if (TSAN) return;
  if (pthread_create(&c, 0, cancel_thread, (void *)(long)n)) return;
  void *r = 0; pthread_join(c, &r);
  if (r != PTHREAD_CANCELED) MV("THREAD", "a cancelled thread ended otherwise");
}
static void *body(void *a) {
  Th &t = *(Th *)a;
  me = &t;
  int target = (int)env_i("VT_LIVE", 60); if (target > MAXB - 4) target = MAXB - 4;
  for (t.ops = 0; t.ops < nops; ++t.ops) {
    if (vt_viols > 5) break;
    u64 k = t.r.below(1000);
    if (k < 430 && t.n < target) alloc_one();
    else if (k < 700 && t.n) { int i = (int)t.r.below(t.n); Rec b = t.b[i]; t.b[i] = t.b[--t.n]; free_rec(b); }
    else if (k < 800) realloc_one();
    else if (k < 930) hand();
    else if (k < 950 && t.n) { Rec &b = t.b[t.r.below(t.n)]; snprintf(t.what, sizeof t.what, "op %ld check %p", t.ops, b.p); DUMA_CHECK(b.p); if (a_usable(b.p) != b.sz) MV("THREAD", "usable size of %zu-byte block is wrong", b.sz); }
    else if (k < 960) { snprintf(t.what, sizeof t.what, "op %ld checkAll", t.ops); DUMA_CHECKALL(); }
    else if (k < 964) { snprintf(t.what, sizeof t.what, "op %ld report", t.ops); a_delframe(); }
    else if (k < 967 && !showalloc) {
      snprintf(t.what, sizeof t.what, "op %ld thread", t.ops);
      pthread_t c;
      if (!pthread_create(&c, 0, short_thread, (void *)(long)t.r.below(50))) { pthread_join(c, 0); ++t.child; }
    }
    else if (k < 968) { snprintf(t.what, sizeof t.what, "op %ld cancel", t.ops); cancel_some(1); }
    else if (t.n) { Rec &b = t.b[t.r.below(t.n)]; verify(b, b.p, b.sz, "re-read"); if (t.r.pct(30)) probe(b); }
  }
  t.what[0] = 0;
  return 0;
}
// ------------------------------------------------------------ the reports
static int cap = -1;
static char *text; static size_t ntext; enum { MAXTEXT = 128 << 20 };
static void load() {
  ntext = 0;
  for (;;) { ssize_t k = pread(cap, text + ntext, MAXTEXT - 1 - ntext, ntext); if (k <= 0) break; ntext += k; }
  text[ntext] = 0;
  if (ftruncate(cap, 0)) {}
}
static bool lit(const char *&p, const char *s) { const char *q = p; while (*s) if (*q++ != *s++) return false; p = q; return true; }
static bool xhas(const char *p, const char *s) { return lit(p, s); }
static bool num(const char *&p, int base, u64 &v) {
  const char *s = p; v = 0;
  for (;; ++p) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; }
  return p != s;
}
static long nreports = 0, nlines = 0, nloglines = 0;
// reports made while the others went on: each is whole and consistent in itself; the last one is exact
static void judge_reports(bool exact) {
  const char *p = text;
  long cnt = 0, extra = -1;
  static u8 *seen = 0; if (!seen) seen = (u8 *)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  int last = -1;
  while (*p) {
    if (*p == '\n') { ++p; continue; }
    u64 a, sz, v;
    const char *l0 = p;
    if (lit(p, "DUMA: ptr=0x")) {
      ++cnt; ++nlines;
      if (!num(p, 16, a) || !lit(p, " size=") || !num(p, 10, sz)) { viol("THREAD", "unreadable line in a report: %.100s", l0); return; }
      const char *e = p; while (*e && *e != '\n') ++e;
      const char *q = e; while (q > p && *q != '(') --q;
      const char *z = q + 1;
      if (!num(z, 10, v) || !lit(z, ") not freed\n")) { viol("THREAD", "unreadable line in a report: %.200s", l0); return; }
      p = e + 1;
      if (exact) {
        bool found = false;
        for (int i = 0; i < NT && !found; ++i) for (int j = 0; j < th[i].n; ++j) if (th[i].b[j].id == v) {
          Rec &b = th[i].b[j]; found = true;
          if ((u64)(uintptr_t)b.p != a || b.sz != sz) viol("THREAD", "block %p+%zu is reported as %lx+%lu", b.p, b.sz, (unsigned long)a, (unsigned long)sz);
          if (seen[i * MAXB + j]++) viol("THREAD", "block %p is reported twice", b.p);
          break;
        }
        if (!found) viol("THREAD", "a block %lx of line %lu is reported but not live", (unsigned long)a, (unsigned long)v);
      }
    } else if (lit(p, "DUMA: Reported ")) {
      if (!num(p, 10, v) || !lit(p, " leak(s).\nDUMA: There are ") || !num(p, 10, a) || !lit(p, " extra leak(s) without allocation information.\n")) { viol("THREAD", "unreadable totals: %.100s", l0); return; }
      if ((long)v != cnt) viol("THREAD", "a report lists %ld blocks and totals %lu", cnt, (unsigned long)v);
      cnt = 0; ++nreports; extra = (long)a; last = (int)v;
    } else { viol("THREAD", "unexpected output: %.200s", l0); return; }
  }
  if (cnt) viol("THREAD", "a report without totals");
  if (exact) {
    long want = 0, ex = 0;
    for (int i = 0; i < NT; ++i) for (int j = 0; j < th[i].n; ++j) if (th[i].b[j].id) { ++want; if (!seen[i * MAXB + j]) viol("THREAD", "block %p+%zu is not reported", th[i].b[j].p, th[i].b[j].sz); } else ++ex;
    if (want + ex && last != want) viol("THREAD", "%d leaks reported, %ld blocks live", last, want);
    (void)extra;
    for (int i = 0; i < 1 << 20; ++i) seen[i] = 0;
  }
}
// the log: every call once, whole lines, releases behind their allocation
#if HAVE_FL
static u8 *st; // state of an id: 1 allocated, 2 freed
static void judge_log() {
  st = (u8 *)mmap(0, (size_t)1 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const char *p = text;
  long na = 0, nf = 0, repl = 0;
  while (*p) {
    if (*p == '\n') { ++p; continue; }
    const char *l0 = p; u64 sz, l, o;
    auto rest = [&] { while (*p && *p != '\n') ++p; };
    auto pos = [&](const char *end, u64 &line) { const char *nl = p; while (*nl && *nl != '\n') ++nl; const char *e = xfind(p, end); if (!e || e > nl) return false; const char *b = e; while (b > p && b[-1] != '(') --b; const char *q = b; if (!num(q, 10, line) || q != e) return false; p = e; return lit(p, end); };
    if (lit(p, "DUMA: Allocating ")) {
      if (!num(p, 10, sz) || !lit(p, " byte(s) at ") || !pos(").", l) || (*p && *p != '\n' && !xhas(p, "DUMA: Reported "))) { viol("THREAD", "torn line in the log: %.200s", l0); return; }
      ++nloglines;
      if (l < (1u << 25)) continue;        // the library's or the C library's own
      if (st[l & 0x3fffffff]++) viol("THREAD", "allocation %lu is logged twice", (unsigned long)l);
      ++na;
    } else if (lit(p, "DUMA: Freeing ")) {
      if (!num(p, 10, sz) || !lit(p, " byte(s) at ") || !pos(") (Allocated from ", l) || !pos(")).", o) || (*p && *p != '\n' && !xhas(p, "DUMA: Reported "))) { viol("THREAD", "torn line in the log: %.200s", l0); return; }
      ++nloglines;
      if (o < (1u << 25)) { if (l >= (1u << 25)) viol("THREAD", "release %lu of an unknown block", (unsigned long)l); continue; }
      if (st[o & 0x3fffffff]++ != 1) viol("THREAD", "release of block %lu, which is %s", (unsigned long)o, st[o & 0x3fffffff] == 1 ? "not allocated" : "freed already");
      ++nf;
    } else if (lit(p, "DUMA: ptr=0x")) {               // a report made meanwhile
      if (!num(p, 16, sz) || !lit(p, " size=") || !num(p, 10, l)) { viol("THREAD", "torn line in a report: %.200s", l0); return; }
      rest(); if (!xhas(p - 11, ") not freed\n")) { viol("THREAD", "torn line in a report: %.200s", l0); return; }
      ++repl;
    } else if (lit(p, "DUMA: Reported ")) {
      if (!num(p, 10, sz) || !lit(p, " leak(s).\nDUMA: There are ") || !num(p, 10, l) || !lit(p, " extra leak(s) without allocation information.\n")) { viol("THREAD", "torn totals: %.200s", l0); return; }
      if (repl != (long)sz) viol("THREAD", "a report lists %ld blocks and totals %lu", repl, (unsigned long)sz);
      repl = 0; ++nreports;
    } else if (lit(p, "DUMA:   Allocation(s): ")) {
      if (!num(p, 10, sz) || !lit(p, "\nDUMA: Deallocation(s): ") || !num(p, 10, l) || !lit(p, "\n") || l > sz + 64) { viol("THREAD", "torn totals of the log: %.200s", l0); return; }
    } else { viol("THREAD", "torn line in the log: %.200s", l0); return; }
  }
  long wa = 0, wf = 0, live = 0;
  for (int i = 0; i < NT; ++i) { wa += th[i].allocs; wf += th[i].frees; for (int j = 0; j < th[i].n; ++j) { ++live; if (st[th[i].b[j].id & 0x3fffffff] != 1) viol("THREAD", "live block %u is not in the log", th[i].b[j].id); } }
  if (na != wa || nf != wf) viol("THREAD", "%ld allocations and %ld releases in the log, %ld and %ld were made", na, nf, wa, wf);
  if (na - nf != live) viol("THREAD", "%ld blocks lost", na - nf - live);
  munmap(st, (size_t)1 << 30);
}
static bool totals(u64 &a, u64 &f) {
  const char *p = xfind(text, "\nDUMA:   Allocation(s): ");
  return p && lit(p, "\nDUMA:   Allocation(s): ") && num(p, 10, a) && lit(p, "\nDUMA: Deallocation(s): ") && num(p, 10, f);
}
#endif
int main() {
#if !TSAN
  install_probes();
#endif
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  NT = (int)env_i("VT_THREADS", 4); if (NT > MAXT - 2) NT = MAXT - 2;
  nops = env_i("VT_OPS", 2000);
  showalloc = (int)env_i("DUMA_SHOW_ALLOC", 0);
  pfree = (int)env_i("DUMA_PROTECT_FREE", -1);
  if (env_i("DUMA_MAX_ALLOC", -1) > 0) pfree = 1;      // a limit: may be reissued
  pages = (Page *)mmap(0, sizeof(Page) * NPAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cap = memfd_create("err", 0);
  text = (char *)mmap(0, MAXTEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int err2 = dup(2);
  fcntl(cap, F_SETFL, O_APPEND);
  dup2(cap, 2);
  u64 seed = env_u("VT_SEED", 1), a0 = 0, f0 = 0, a1, f1;
  cancel_some(2);
  xallocs = 0; xthreads = 0;
  a_delframe(); load();
#if HAVE_FL
  if (showalloc && !totals(a0, f0)) viol("THREAD", "no totals");
#endif
  for (long round = 0; round < env_i("VT_ROUNDS", 3) && !vt_viols; ++round) {
    for (int i = 0; i < NT; ++i) { th[i].id = i; th[i].r = Rng(seed * 131 + i + round * 977); }
    delaypct = (int)env_i("VT_DELAY", 0);
    for (int i = 0; i < NT; ++i) pthread_create(&th[i].t, 0, body, &th[i]);
    for (int i = 0; i < NT; ++i) pthread_join(th[i].t, 0);
    delaypct = 0;
    me = &th[0];
    for (int i = 0; i < NBOX; ++i) if (box[i].st.load() == 2) { if (th[0].n < MAXB) th[0].b[th[0].n++] = box[i].r; else { me = &th[0]; free_rec(box[i].r); } box[i].st.store(0); }
    load();
#if HAVE_FL
    if (showalloc) {
      if (round == 0) judge_log();
      a_delframe(); load();
      u64 more = 0;
      long wa = 0, wf = 0; for (int i = 0; i < NT; ++i) { wa += th[i].allocs; wf += th[i].frees; }
      if (!totals(a1, f1)) viol("THREAD", "no totals");
      // threads allocate in the C library (plainly): at most a few
      else if (wa += xallocs.load(), wf += xallocs.load(), more = 60 + 4 * (u64)xthreads.load(), a1 - a0 < (u64)wa || a1 - a0 > (u64)wa + more || f1 - f0 < (u64)wf || f1 - f0 > (u64)wf + more) viol("THREAD", "totals %lu and %lu, %ld allocations and %ld releases were made", (unsigned long)(a1 - a0), (unsigned long)(f1 - f0), wa, wf);
    } else {
      judge_reports(false);
      a_delframe(); load(); judge_reports(true);
    }
#endif
    for (int i = 0; i < NT; ++i) { for (int j = 0; j < th[i].n; ++j) { Rec &b = th[i].b[j]; verify(b, b.p, b.sz, "at the end"); probe(b); if (a_usable(b.p) != b.sz) viol("THREAD", "usable size of live block is wrong"); } }
    DUMA_CHECKALL();
    if (round % 2 && !showalloc) for (int i = 0; i < NT; ++i) { while (th[i].n) free_rec(th[i].b[--th[i].n]); }
    else if (round % 2) break;
    load();
  }
  long ops = 0, handed = 0, child = 0;
  for (int i = 0; i < NT; ++i) { ops += th[i].allocs + th[i].frees; handed += th[i].taken; child += th[i].child; }
  dup2(err2, 2);
  stat_("ops %ld", ops); stat_("handovers %ld", handed); stat_("threads %d", NT + (int)child); stat_("delays %ld", ndelays.load()); stat_("locks %ld", nlocks.load()); stat_("lockhandovers %ld", nswitch.load());
  stat_("reports %ld", nreports); stat_("cancels %d", cancelled.load()); stat_("reportlines %ld", nlines); stat_("loglines %ld", nloglines);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
