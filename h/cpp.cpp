// C++: new-handlers, constructors that throw, destructors that delete, positions of delete expressions, threads.
#include "vh.h"
#include <atomic>
#include <malloc.h>
#include <string.h>
#include "cppplain.h"
#define DUMA_SKIP_SETUP 1
#include "dumapp.h"
#if !defined(DUMA_NO_LEAKDETECTION) && !defined(DUMA_NO_CPP_SUPPORT)
#define FL 1
#else
#define FL 0
#endif
#ifdef DUMA_NO_CPP_SUPPORT
#define CPP 0
#else
#define CPP 1
#endif
int Derived::gone = 0;
#if __cplusplus >= 201703L
int Over::n = 0;
#endif
static char what[200];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", what); }
#define W(...) snprintf(what, sizeof what, __VA_ARGS__)
static bool protectfree;
static long nforms = 0, nhandler = 0, nctor = 0, ndel = 0, nlog = 0;

// ------------------------------------------------------------ the new-handler
static int hcalls, hlimit, hmode; static void *reserve; enum { RESERVE = 64 << 20 };
struct MyBad : std::bad_alloc { int v; MyBad(int x) : v(x) {} };
static void second() { ++hcalls; throw MyBad(hcalls + 1000); }
static void handler() {
  if (hmode == 5) {              // the handler uses the heap itself
    char *p = (char *)plain_new(100); p[99] = 1; plain_delete(p);
  }
  if (++hcalls < hlimit) return;
  switch (hmode) {
  case 0: case 5: throw MyBad(hcalls);
  case 1: std::set_new_handler(0); return;
  case 2: std::set_new_handler(second); return;
  case 3: if (reserve) { munmap(reserve, RESERVE); reserve = 0; } return;
  case 4: throw std::bad_alloc();
  }
}
static long vsize() {
  char b[200]; int f = open("/proc/self/statm", O_RDONLY); long n = 0;
  ssize_t k = read(f, b, sizeof b - 1); if (k > 0) { b[k] = 0; n = strtol(b, 0, 10); } close(f); return n * 4096;
}
// form: 0.. scalar, array, nothrow, with position
enum { NFORM = 8 };
static const char *formname[] = {"operator new", "operator new[]", "operator new(nothrow)", "operator new[](nothrow)",
  "operator new(file, line)", "operator new[](file, line)", "operator new(nothrow, file, line)", "operator new[](nothrow, file, line)"};
static const int formnothrow[] = {0, 0, 1, 1, 0, 0, 1, 1}, formarr[] = {0, 1, 0, 1, 0, 1, 0, 1};
#undef new
#undef delete
static void *form(int k, size_t n) {
  switch (k) {
  case 0: return ::operator new(n);
  case 1: return ::operator new[](n);
  case 2: return ::operator new(n, std::nothrow);
  case 3: return ::operator new[](n, std::nothrow);
#if FL
  case 4: return ::operator new(n, "form.c", 77);
  case 5: return ::operator new[](n, "form.c", 77);
  case 6: return ::operator new(n, std::nothrow, "form.c", 77);
  case 7: return ::operator new[](n, std::nothrow, "form.c", 77);
#endif
  }
  return 0;
}
static void unform(int k, void *p, int how) {
  if (formarr[k]) switch (how % 4) {
  case 0: ::operator delete[](p); break;
  case 1: ::operator delete[](p, std::nothrow); break;
#if FL
  case 2: ::operator delete[](p, "unform.c", 78); break;
  case 3: ::operator delete[](p, std::nothrow, "unform.c", 78); break;
#else
  default: ::operator delete[](p); break;
#endif
  } else switch (how % 4) {
  case 0: ::operator delete(p); break;
  case 1: ::operator delete(p, std::nothrow); break;
#if FL
  case 2: ::operator delete(p, "unform.c", 78); break;
  case 3: ::operator delete(p, std::nothrow, "unform.c", 78); break;
#else
  default: ::operator delete(p); break;
#endif
  }
}
static bool haveform(int k) { return FL || k < 4; }
static void forms(Rng &r) {
  for (int k = 0; k < NFORM; ++k) if (haveform(k)) for (int how = 0; how < 4; ++how) {
    size_t n = r.pct(10) ? 0 : r.pct(50) ? r.range(1, 200) : r.range(1, 20000);
    W("%s(%zu)", formname[k], n);
    char *p = (char *)form(k, n);
    ++nforms; situation(mix(k * 4 + how, n == 0 ? 0 : n < 4096 ? 1 : 2));
    if (!p) { viol("CPP", "returns null"); continue; }
    for (size_t i = 0; i < n; ++i) p[i] = (char)(i * 7);
    for (size_t i = 0; i < n; ++i) if (p[i] != (char)(i * 7)) { viol("CPP", "storage is not usable"); break; }
    unform(k, p, how);
    if (protectfree && n && !dead(p)) viol("CPP", "released storage is accessible (release %d)", how);
    unform(k, 0, how);                       // null: nothing happens
  }
}
// what happens when the memory cannot be had
static void failing(Rng &r, bool real) {
  for (int k = 0; k < NFORM; ++k) if (haveform(k)) for (int m = -1; m < 6; ++m) {
    if (m == 3 && !real) continue;
    hmode = m; hcalls = 0; hlimit = r.pct(6) ? (int)r.range(50, 2000) : (int)r.range(1, 6);
    size_t n = m == 3 || (real && r.pct(50)) ? (48u << 20) : r.pct(30) ? (size_t)0 - (size_t)(r.pct(40) ? 1 : r.pct(50) ? r.range(1, 100) : r.range(1, 20000)) : (size_t)1 << r.range(48, 63);
    struct rlimit old, lim; getrlimit(RLIMIT_AS, &old); lim = old;
    if (real) {
      reserve = mmap(0, RESERVE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      lim.rlim_cur = (rlim_t)vsize() + (8 << 20); setrlimit(RLIMIT_AS, &lim);
    }
    std::set_new_handler(m < 0 ? 0 : handler);
    W("%s(%zu), handler %d after %d calls", formname[k], n, m, hlimit);
    void *p = (void *)1; int ex = 0, val = 0;
    try { p = form(k, n); } catch (MyBad &e) { ex = 2; val = e.v; } catch (std::bad_alloc &) { ex = 1; } catch (...) { ex = 3; }
    std::new_handler now = std::set_new_handler(0);
    if (real) { setrlimit(RLIMIT_AS, &old); if (reserve) munmap(reserve, RESERVE); reserve = 0; }
    ++nhandler; situation(mix(mix(k, m + 10), real * 2 + (n > (1u << 30))));
    int wantcalls = m < 0 ? 0 : m == 2 ? hlimit + 1 : hlimit;
    if (hcalls != wantcalls) viol("CPP", "the new-handler was called %d times, not %d", hcalls, wantcalls);
    std::new_handler wanth = m < 0 || m == 1 ? (std::new_handler)0 : m == 2 ? second : handler;
    if (now != wanth) viol("CPP", "another new-handler is installed afterwards");
    if (m == 3) {
      if (ex || !p) { viol("CPP", "no memory although the handler freed some"); continue; }
      char *c = (char *)p; c[0] = 1; c[n - 1] = 2;
      unform(k, p, (int)r.below(4));
    } else if (formnothrow[k]) {
      if (ex) viol("CPP", "the nothrow form threw"); else if (p) viol("CPP", "the nothrow form returned %p", p);
    } else {
      int want = m == 0 || m == 2 || m == 5 ? 2 : 1;
      if (!ex) viol("CPP", "returned %p instead of throwing", p);
      else if (ex != want) viol("CPP", "threw exception %d instead of %d", ex, want);
      else if (ex == 2 && val != (m == 2 ? hlimit + 1 + 1000 : hlimit)) viol("CPP", "threw another object (%d)", val);
    }
    // and the heap goes on
    char *q = (char *)plain_new(50); q[49] = 1; plain_delete(q);
  }
  // sizes that overflow
  W("new int[huge]");
  size_t hu[] = {(size_t)-1, (size_t)-1 / 4 + 2, (size_t)1 << 61, ((size_t)1 << 62) + 1};
  for (int i = 0; i < 4; ++i) {
    int ex = 0;
    try { plain_ints(hu[i]); } catch (std::bad_alloc &) { ex = 1; }
    if (!ex) viol("CPP", "new int[%zx] succeeded", hu[i]);
    // since C++11, also the nothrow form throws bad_array_new_length in some compilers; null is required otherwise
    try { if (plain_ints_nothrow(hu[i])) viol("CPP", "new (nothrow) int[%zx] succeeded", hu[i]); } catch (std::bad_alloc &) {}
  }
}

// ------------------------------------------------------------ the program's own expressions
#include "dumapp.h"
#ifdef DUMA_OLD_NEW_MACRO
#define NEWE(T) NEW_ELEM(T)
#define NEWA(T, N) NEW_ARRAY(T, N)
#else
#define NEWE(T) new T
#define NEWA(T, N) new T[N]
#endif
static void ctors(Rng &r) {
  for (int how = 0; how < 3; ++how) for (int n = -1; n < 8; n += 1 + (int)r.below(2)) {
    int cnt = n < 0 ? 1 : n;
    int t = r.pct(50) ? -1 : (int)r.below(cnt + 1);
    Obj::reset(t);
    W("new Obj%s%d, way %d, constructor %d throws", n < 0 ? " " : "[]", n, how, t);
    Obj *p = 0; bool ex = false;
    ++nctor; situation(mix(how, mix(n + 2, t < 0 ? 50 : t < cnt)));
    try {
      switch (how) {
      case 0: p = plain_obj(n); break;
      case 1: p = plain_obj_nothrow(n); break;
      case 2: if (n < 0) p = NEWE(Obj); else p = NEWA(Obj, n); break;
      }
    } catch (int x) { ex = x == 42; }
    if (t >= 0 && t < cnt) {
      if (!ex) { viol("CPP", "the exception did not arrive"); continue; }
      if (Obj::ctors != t || Obj::dtors != t || Obj::bad) viol("CPP", "%d objects made, %d destroyed, %d wrong", Obj::ctors, Obj::dtors, Obj::bad);
      if (protectfree && Obj::first && !dead(Obj::first)) viol("CPP", "the storage was not released");
    } else {
      if (ex || !p) { viol("CPP", "no object"); continue; }
      if (Obj::ctors != cnt || Obj::dtors) viol("CPP", "%d objects made", Obj::ctors);
      Obj::order = cnt;
      switch (r.below(2)) {
      case 0: plain_delobj(p, n); break;
      default: if (n < 0) delete p; else delete[] p; break;
      }
      if (Obj::dtors != cnt || Obj::bad) viol("CPP", "%d of %d objects destroyed, %d wrong", Obj::dtors, cnt, Obj::bad);
      if (protectfree && cnt && !dead(p)) viol("CPP", "the storage was not released");
    }
  }
  W("delete through a base class");
  int g = Derived::gone;
  Base *b = r.pct(50) ? plain_derived() : NEWE(Derived);
  if (r.pct(50)) plain_delbase(b); else delete b;
  if (Derived::gone != g + 1) viol("CPP", "the destructor ran %d times", Derived::gone - g);
  if (protectfree && !dead(b)) viol("CPP", "the storage was not released");
  W("delete of null");
  Obj *z = 0; Base *bz = 0;
  delete z; delete[] z; delete bz; plain_delobj(0, -1); plain_delobj(0, 1);
#if !defined(DUMA_OLD_DEL_MACRO) && FL
  if (_duma_del.DelPtr) viol("CPP", "depth of the delete expressions is %d outside of them", _duma_del.DelPtr);
#endif
#if __cplusplus >= 201703L
  W("over-aligned objects");
  for (int n = -1; n < 4; ++n) {
    void *p = plain_over(n);
    if ((uintptr_t)p % 256 && n) viol("CPP", "an object aligned to 256 is at %p", p);
    if (Over::n != (n < 0 ? 1 : n)) viol("CPP", "%d objects made", Over::n);
    plain_delover(p, n);
    if (Over::n) viol("CPP", "%d objects left", Over::n);
  }
#endif
}

// ------------------------------------------------------------ nested deletes and their positions
#if FL
#undef new
#undef delete
enum { MAXID = 1 << 20, MAXDEPTH = 200 };
struct Exp { u32 line; u32 bytes; u8 file, freed; };
static Exp *ex; static std::atomic<u32> nid{1};
struct Node;
struct Leafs { u32 id; u32 one; Leafs() : id(0), one(0) {} ~Leafs(); };
struct Node {
  u32 id; Node *l, *r; Leafs *arr; void *mem; void *plain; void *cmem; Node *none; int act; Node *pass;
  virtual ~Node();
};
struct Big : Node { char c[5000]; };
#define EXP(I) (ex[I].line = __LINE__)
static __thread Rng *tr;
static __thread long tdel;
static u32 takeid(size_t bytes) { u32 i = nid.fetch_add(1); if (i >= MAXID) { stat_("toomanyids 1"); _exit(3); } ex[i].bytes = (u32)bytes; return i; }
static void direct(void *p) { ::operator delete(p, "direct.c", 4711); }
struct Thrower { char c; ~Thrower() noexcept(false) { throw 5; } };
struct Through { u32 id; Thrower *t; ~Through() noexcept(false); };
static Thrower *refuse(int x) { if (x) throw 5; return 0; }
static Node *make(int depth, int chain) {
  Rng &r = *tr;
  bool big = r.pct(20);
  u32 id = takeid(big ? sizeof(Big) : sizeof(Node));
  Node *n = big ? new ("node.c", (int)id) Big : new ("node.c", (int)id) Node;
  n->id = id; n->l = n->r = 0; n->arr = 0; n->mem = n->plain = n->cmem = 0; n->none = 0; n->pass = 0; n->act = (int)r.below(16);
  if (chain > 0) n->l = make(0, chain - 1);
  else if (depth > 0) { if (r.pct(75)) n->l = make(depth - 1, 0); if (r.pct(60)) n->r = make(depth - 1, 0); if (r.pct(10)) n->pass = make(depth - 1, 0); }
  if (r.pct(30)) { u32 k = (u32)r.range(1, 5); u32 i = takeid(0); n->arr = new ("node.c", (int)i) Leafs[k]; n->arr[0].id = i; for (u32 j = 0; j < k; ++j) if (r.pct(50)) { u32 q = takeid(24); n->arr[j].one = q; ((void **)0, 0); } }
  if (r.pct(30)) { u32 i = takeid(4); n->mem = new ("node.c", (int)i) int((int)i); }
  if (r.pct(30)) { u32 i = takeid(4); n->plain = new ("node.c", (int)i) int((int)i); }
  if (r.pct(20)) n->cmem = malloc(33);
  return n;
}
#include "dumapp.h"
Leafs::~Leafs() {
  if (one) { char *c; u32 i = one;
#undef new
    c = new ("node.c", (int)i) char[24];
    EXP(i); delete[] c; ++tdel; }
}
Through::~Through() noexcept(false) { EXP(id); delete t; }
// delete expressions that are left by an exception: the storage is released, and their position no longer counts
static void leaving() {
  u32 a = takeid(sizeof(Thrower)), b = takeid(sizeof(Thrower)), c = takeid(sizeof(Through));
  Thrower *t = new ("node.c", (int)a) Thrower; Through *h = new ("node.c", (int)c) Through; h->id = b; h->t = new ("node.c", (int)b) Thrower;
  int got = 0, dp = _duma_del.DelPtr;
  try { EXP(a); delete t; } catch (int x) { got += x == 5; }
  try { EXP(c); delete h; } catch (int x) { got += x == 5; }
  try { delete refuse(1); } catch (int x) { got += x == 5; }
  tdel += 3;
  if (got != 3) viol("CPP", "%d of 3 exceptions left a delete expression", got);
  if (_duma_del.DelPtr != dp) { viol("CPP", "depth of the delete expressions is %d, it was %d before three of them were left by exceptions", _duma_del.DelPtr, dp); _duma_del.DelPtr = dp; }
}
static Node *give(Node *n) { Node *p = n->pass; n->pass = 0; if (n->r) { EXP(n->r->id); delete n->r; ++tdel; n->r = 0; } return p; }
Node::~Node() {
  if (act & 1) delete none;
  if (l) { EXP(l->id); delete l; ++tdel; }
  if (pass) { EXP(pass->id); delete give(this); ++tdel; }      // the operand deletes, too
  if (r) { ex[r->id].line = __LINE__ + 1;
    delete r; ++tdel; }
  if (act & 2) delete none;
  if (arr) { EXP(arr[0].id); delete[] arr; ++tdel; }
  if (mem) { EXP(*(int *)mem); delete (int *)mem; ++tdel; }
  if (cmem) free(cmem);
  if ((act & 9) == 9) leaving();
  // a release by code without the macros belongs to the innermost delete expression: the one destroying this object
  if (plain) { ex[*(int *)plain].line = ex[id].line; plain_delexpr(plain); ++tdel; }
  if (act & 4) { EXP(takeid(0)); Node *z = 0; delete z; }
  if (act & 8) leaving();
}
static void *one(void *a) {
  Rng r((u64)(uintptr_t)a); tr = &r;
  long rounds = env_i("VT_OPS", 200);
  for (long i = 0; i < rounds; ++i) {
    int d = (int)r.below(6), ch = r.pct(5) ? (int)r.range(1, MAXDEPTH) : 0;
    Node *n = make(d, ch);
#ifndef VT_TSAN
    situation(mix(d, ch / 20));
#endif
    switch (r.below(4)) {
    case 0: EXP(n->id); delete n; break;
    case 1: if (n) { EXP(n->id); delete n; } else delete n; break;
    case 2: { ex[n->id].line = __LINE__ + 1; 
        delete n; break; }
    default: ex[n->id].line = 0; ex[n->id].file = 1; { void *mp = n->plain; if (mp) { ex[*(int *)mp].line = 4711; ex[*(int *)mp].file = 1; n->plain = 0; direct(mp); ++tdel; } }
      ex[n->id].file = 0; EXP(n->id); delete n; break;
    }
    ++tdel;
    if (_duma_del.DelPtr) { viol("CPP", "depth of the delete expressions is %d outside of them", _duma_del.DelPtr); _duma_del.DelPtr = 0; }
    if (vt_viols > 5) break;
  }
  __atomic_fetch_add(&ndel, tdel, __ATOMIC_RELAXED);
  tdel = 0;
  return 0;
}
struct Joiner { pthread_t t; char *c; ~Joiner(); };
static void *other(void *p) { char *q = (char *)malloc(10); q[0] = 1; free(q); int *i = (int *)plain_expr(); plain_delexpr(i); delete (char *)p; return 0; }
Joiner::~Joiner() { pthread_create(&t, 0, other, plain_new(1)); pthread_join(t, 0); delete c; }
#undef new
static void leave300() { W("delete expressions left by exceptions"); for (int i = 0; i < 300; ++i) leaving(); }
static void joiner() { Joiner *j = new ("joiner.c", 1) Joiner; j->c = new ("joiner.c", 2) char; W("a destructor joining a thread that allocates"); alarm(100); delete j; alarm(0); }

static int cap = -1; static char *text; static size_t ntext; enum { MAXTEXT = 256 << 20 };
static void load() { ntext = 0; for (;;) { ssize_t k = pread(cap, text + ntext, MAXTEXT - 1 - ntext, ntext); if (k <= 0) break; ntext += k; } text[ntext] = 0; }
static void judge() {
  const char *me = __FILE__;
  // Freeing %u byte(s) at FILE(LINE) (Allocated from node.c(ID)).
  for (char *l = text; *l; ) {
    char *e = strchr(l, '\n'); if (!e) break; *e = 0;
    char *a;
    if (!strncmp(l, "DUMA: Freeing ", 14) && (a = strstr(l, " (Allocated from node.c("))) {
      u32 id = (u32)strtoul(a + 24, 0, 10);
      u32 bytes = (u32)strtoul(l + 14, 0, 10);
      ++nlog;
      char want[600];
      if (!id || id >= nid.load()) { viol("CPP", "unknown block %u: %.200s", id, l); return; }
      Exp &x = ex[id];
      if (x.freed++) { viol("CPP", "block %u is released twice: %.200s", id, l); return; }
      if (x.bytes && x.bytes != bytes) { viol("CPP", "block %u of %u bytes: %.200s", id, x.bytes, l); return; }
      snprintf(want, sizeof want, " byte(s) at %s(%u) (Alloc", x.file ? "direct.c" : me, x.line);
      if (!strstr(l, want)) { viol("CPP", "block %u is deleted in line %u, the log says: %.300s", id, x.line, l); return; }
    }
    l = e + 1;
  }
}
#endif
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  protectfree = env_i("DUMA_PROTECT_FREE", -1) < 0;
  Rng r(env_u("VT_SEED", 1));
  free(malloc(1));
  long n = env_i("VT_FORMS", 0);
  for (long i = 0; i < n && vt_viols < 10; ++i) {
    if (CPP) { forms(r); if (i % 4 == 0) { failing(r, false); if (env_i("DUMA_PROTECT_FREE", -1) == 0) failing(r, true); } }
    ctors(r);
  }
#if FL
  if (env_i("VT_THREADS", 0)) {
    ex = (Exp *)mmap(0, sizeof(Exp) * MAXID, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bool log = env_i("DUMA_SHOW_ALLOC", 0) != 0;
    int err2 = dup(2);
    if (log) {
      cap = memfd_create("err", 0); fcntl(cap, F_SETFL, O_APPEND); dup2(cap, 2);
      text = (char *)mmap(0, MAXTEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    int nt = (int)env_i("VT_THREADS", 1); if (nt > 16) nt = 16;
    pthread_t t[16]; u64 s = r.next();
    for (int i = 1; i < nt; ++i) pthread_create(&t[i], 0, one, (void *)(uintptr_t)(s + i));
    one((void *)(uintptr_t)s);
    for (int i = 1; i < nt; ++i) pthread_join(t[i], 0);
    leave300(); ndel += tdel; tdel = 0; joiner();
    dup2(err2, 2);
    if (log) {
      load(); judge();
      if (!vt_viols && nlog != ndel) viol("CPP", "%ld blocks deleted, %ld in the log", ndel, nlog);
    }
    DUMA_CHECKALL();
  }
#endif
  stat_("forms %ld", nforms); stat_("handlers %ld", nhandler); stat_("constructions %ld", nctor); stat_("deletes %ld", ndel); stat_("loglines %ld", nlog);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
