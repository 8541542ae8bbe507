// The macro forms of new and delete: NEW_ELEM, NEW_ARRAY, DEL_ELEM, DEL_ARRAY and their NOTHROW forms, and the plain
// new/delete macros.  Every single call is compared with the line the library writes about it, and with the objects' own counts.
#include "vh.h"
#include <new>
#include <string.h>
#define DUMA_SKIP_SETUP 1
#include "dumapp.h"
#if !defined(DUMA_NO_LEAKDETECTION) && !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_DUMA)
#define FL 1
#else
#define FL 0
#endif
#ifdef NEW_ELEM
#define OLDN 1
#else
#define OLDN 0
#define NEW_ELEM(T) new T
#define NEW_ARRAY(T, N) new T[N]
#define NEW_ELEM_NOTHROW(T) NT_E(T)
#define NEW_ARRAY_NOTHROW(T, N) NT_A(T, N)
#endif
#ifndef DEL_ELEM
#define DEL_ELEM(P) delete P
#define DEL_ARRAY(P) delete[] P
#define DEL_ELEM_NOTHROW(P) delete P
#define DEL_ARRAY_NOTHROW(P) delete[] P
#endif
static char what[200];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", what); }
static long nforms = 0, nlog = 0, nnest = 0, nrefused = 0, nctor = 0;
static int cap = -1; static off_t pos = 0; static bool logging;
static char buf[400000];
#line 37 "old.cpp"
static const char *me = __FILE__;
// what has been written since the last call
static char *fresh() {
  size_t n = 0;
  for (;;) { ssize_t k = pread(cap, buf + n, sizeof buf - 1 - n, pos); if (k <= 0) break; n += (size_t)k; pos += k; }
  buf[n] = 0; return buf;
}
static int occurs(const char *t, const char *w) { int n = 0; for (; (t = strstr(t, w)); t += strlen(w)) ++n; return n; }
static void expect_alloc(const char *how, const char *file, int line, size_t bytes) {
  ++nforms;
  if (!logging) return;
  char *t = fresh(), w[700];
  snprintf(w, sizeof w, "DUMA: Allocating %zu byte(s) at %s(%d).", bytes, file, line);
  char m[400]; snprintf(m, sizeof m, "byte(s) at %s(", file);      // the library's own table may grow meanwhile
  if (occurs(t, m) != 1 || occurs(t, w) != 1) viol("CPP", "%s in line %d of %zu bytes: the log says %.300s", how, line, bytes, t);
  ++nlog;
}
static void expect_free(const char *how, const char *file, int line, size_t bytes, const char *afile, int aline) {
  ++nforms;
#if FL
  if (_duma_del.DelPtr) { viol("CPP", "depth of the delete expressions is %d after %s", _duma_del.DelPtr, how); _duma_del.DelPtr = 0; }
#endif
  if (!logging) return;
  char *t = fresh(), w[900];
  snprintf(w, sizeof w, "DUMA: Freeing %zu byte(s) at %s(%d) (Allocated from %s(%d)).", bytes, file, line, afile, aline);
  char m[400]; snprintf(m, sizeof m, "byte(s) at %s(", file);
  if (occurs(t, m) != 1 || occurs(t, w) != 1) viol("CPP", "%s in line %d of %zu bytes from line %d: the log says %.300s", how, line, bytes, aline, t);
  ++nlog;
}
static void expect_nothing(const char *how) {
  ++nforms;
#if FL
  if (_duma_del.DelPtr) { viol("CPP", "depth of the delete expressions is %d after %s", _duma_del.DelPtr, how); _duma_del.DelPtr = 0; }
#endif
  if (!logging) return;
  char *t = fresh();
  if (strstr(t, " at old.cpp(") || strstr(t, "NULL")) viol("CPP", "%s: the log says %.300s", how, t);
}
// -------------------------------------------------------------- objects
static long live = 0; static int failat = -1;
template <int N> struct Obj {
  char c[N];
  Obj() { if (failat >= 0 && failat-- == 0) throw 17; ++live; ++nctor; memset(c, N & 127, N); }
  ~Obj() { for (int i = 0; i < N; ++i) if (c[i] != (N & 127)) { viol("CPP", "object of %d bytes has lost its contents", N); break; } --live; }
};
#if !OLDN
#if FL
#pragma push_macro("new")
#undef new
static int nt_line; static const char *nt_file;
template <class T> static T *nt_e() { return new (std::nothrow, nt_file, nt_line) T; }
template <class T> static T *nt_a(size_t n) { return new (std::nothrow, nt_file, nt_line) T[n]; }
#define NT_E(T) (nt_file = __FILE__, nt_line = __LINE__, nt_e<T>())
#define NT_A(T, N) (nt_file = __FILE__, nt_line = __LINE__, nt_a<T>(N))
#pragma pop_macro("new")
#else
#define NT_E(T) new (std::nothrow) T
#define NT_A(T, N) new (std::nothrow) T[N]
#endif
#endif
typedef char Plain[1];
struct Big { Big() { throw 1; } char c[1ul << 46]; };
// all eight forms in one place; the type decides the size
template <class T> static void forms(Rng &r, size_t each, bool cookie, const char *tn) {
  (void)r;
  size_t n = r.below(6) ? (size_t)r.range(1, 40) : 1;
  size_t ab = each * n + (cookie ? 8 : 0);
  T *p; int ln;
  snprintf(what, sizeof what, "forms for %s[%zu]", tn, n);
  long l0 = live;
  for (int nt = 0; nt < 2; ++nt) for (int dt = 0; dt < 2; ++dt) {
    if (nt) { ln = __LINE__; p = NEW_ELEM_NOTHROW(T); expect_alloc("NEW_ELEM_NOTHROW", me, __LINE__, each); }
    else { ln = __LINE__; p = NEW_ELEM(T); expect_alloc("NEW_ELEM", me, __LINE__, each); }
    if (!p) { viol("CPP", "%s returned null", tn); return; }
    if (dt) { DEL_ELEM_NOTHROW(p); expect_free("DEL_ELEM_NOTHROW", me, __LINE__, each, me, ln); }
    else { DEL_ELEM(p); expect_free("DEL_ELEM", me, __LINE__, each, me, ln); }
    if (nt) { ln = __LINE__; p = NEW_ARRAY_NOTHROW(T, n); expect_alloc("NEW_ARRAY_NOTHROW", me, __LINE__, ab); }
    else { ln = __LINE__; p = NEW_ARRAY(T, n); expect_alloc("NEW_ARRAY", me, __LINE__, ab); }
    if (!p) { viol("CPP", "%s[] returned null", tn); return; }
    if (dt) { DEL_ARRAY_NOTHROW(p); expect_free("DEL_ARRAY_NOTHROW", me, __LINE__, ab, me, ln); }
    else { DEL_ARRAY(p); expect_free("DEL_ARRAY", me, __LINE__, ab, me, ln); }
    if (live != l0) { viol("CPP", "%ld objects of type %s are left", live - l0, tn); live = l0; }
    p = 0;
    if (dt) { DEL_ELEM_NOTHROW(p); } else { DEL_ELEM(p); }
    if (dt) { DEL_ARRAY_NOTHROW(p); } else { DEL_ARRAY(p); }
    expect_nothing("deleting null");
  }
  situation(mix(each, n));
}
// as a statement of its own, without braces, with an expression as operand, in far-away lines
#line 70001 "far/away/source.cpp"
static void statements(Rng &r) {
  char *v[4]; int ln[4];
  v[0] = NEW_ELEM(char); ln[0] = __LINE__; expect_alloc("NEW_ELEM", "far/away/source.cpp", __LINE__, 1);
  v[1] = NEW_ARRAY(char, 1 + 2); ln[1] = __LINE__; expect_alloc("NEW_ARRAY", "far/away/source.cpp", __LINE__, 3);
  v[2] = NEW_ELEM_NOTHROW(char); ln[2] = __LINE__; expect_alloc("NEW_ELEM_NOTHROW", "far/away/source.cpp", __LINE__, 1);
  v[3] = NEW_ARRAY_NOTHROW(char, r.pct(50) ? 5 : 6 - 1); ln[3] = __LINE__; expect_alloc("NEW_ARRAY_NOTHROW", "far/away/source.cpp", __LINE__, 5);
  int i = 0;
  if (v[0]) DEL_ELEM(v[i++]);
  expect_free("DEL_ELEM", "far/away/source.cpp", __LINE__ - 1, 1, "far/away/source.cpp", ln[0]);
  if (v[1]) DEL_ARRAY(v[i++]);
  expect_free("DEL_ARRAY", "far/away/source.cpp", __LINE__ - 1, 3, "far/away/source.cpp", ln[1]);
  for (int k = 0; k < 1; ++k) DEL_ELEM_NOTHROW(v[i++]);
  expect_free("DEL_ELEM_NOTHROW", "far/away/source.cpp", __LINE__ - 1, 1, "far/away/source.cpp", ln[2]);
  do DEL_ARRAY_NOTHROW(v[i++]); while (0);
  expect_free("DEL_ARRAY_NOTHROW", "far/away/source.cpp", __LINE__ - 1, 5, "far/away/source.cpp", ln[3]);
  if (i != 4) viol("CPP", "the operands of four delete expressions have been evaluated %d times", i);
}
#line 160 "old.cpp"
// a constructor that throws: the storage is released, every form
static void thrower(Rng &r) {
  typedef Obj<24> T; T *p = 0; long l0 = live;
  for (int k = 0; k < 4; ++k) {
    size_t n = (size_t)r.range(1, 9); failat = k & 1 ? (int)r.below(n) : 0;
    int left = failat; bool caught = false;
    snprintf(what, sizeof what, "form %d with constructor %d of %zu throwing", k, left, n);
    try {
      switch (k) { case 0: p = NEW_ELEM(T); break; case 1: p = NEW_ARRAY(T, n); break; case 2: p = NEW_ELEM_NOTHROW(T); break; default: p = NEW_ARRAY_NOTHROW(T, n); }
    } catch (int x) { caught = x == 17; }
    failat = -1; ++nforms;
    if (!caught) viol("CPP", "%s: no exception", what);
    if (live != l0) { viol("CPP", "%s: %ld objects are left", what, live - l0); live = l0; }
    if (logging) { char *t = fresh(); if (occurs(t, "byte(s) at old.cpp(") != 2 || occurs(t, "DUMA: Freeing ") < 1) viol("CPP", "%s: the log says %.300s", what, t); }
  }
  (void)p;
}
// requests that cannot be met
static int handled;
static void handler() { if (++handled == 3) std::set_new_handler(0); }
static void refused(Rng &r) {
  for (int k = 0; k < 4; ++k) for (int hd = 0; hd < 2; ++hd) {
    typedef Obj<24> T;
    volatile size_t huge = (size_t)r.range(1l << 46, 1l << 50);
    void *p = (void *)1; int got = 0; long l0 = live;
    handled = 0; if (hd) std::set_new_handler(handler);
    snprintf(what, sizeof what, "form %d refused, %s new-handler", k, hd ? "with a" : "without");
    try {
      switch (k) {
      case 0: p = NEW_ELEM(Big); break;
      case 1: p = NEW_ARRAY(T, huge); break;
      case 2: p = NEW_ELEM_NOTHROW(Big); break;
      default: p = NEW_ARRAY_NOTHROW(T, huge); break;
      }
    } catch (std::bad_alloc &) { got = 1; } catch (...) { got = 2; }
    std::set_new_handler(0);
    ++nrefused; ++nforms;
    if (k < 2 ? got != 1 : (got != 0 || p)) viol("CPP", "%s: %s", what, got == 0 ? p ? "a pointer" : "null" : got == 1 ? "bad_alloc" : "another exception");
    if (hd && handled != 3) viol("CPP", "%s: the handler was called %d times", what, handled);
    if (live != l0) { viol("CPP", "%s: %ld objects", what, live - l0); live = l0; }
    if (logging) { char *t = fresh(); (void)t; }
  }
}
// -------------------------------------------------------------- nesting
static int oline;
struct Chain { Chain *next; char *tail; ~Chain(); };
static int innerline;
Chain::~Chain() {
  innerline = __LINE__; DEL_ELEM(next);
  if (tail) DEL_ARRAY(tail);
}
static Chain *chain(int n) {
  Chain *h = 0;
  for (int i = 0; i < n; ++i) { oline = __LINE__; Chain *c = NEW_ELEM(Chain); c->next = h; c->tail = 0; h = c; }
  return h;
}
static void nested(int depth) {
  snprintf(what, sizeof what, "%d nested delete expressions", depth);
  Chain *c = chain(depth);
  char *tl = NEW_ARRAY(char, 77); int tline = __LINE__;
  if (c) c->tail = tl;
  if (logging) fresh();
  int at = __LINE__; DEL_ELEM(c);
  nnest += depth; ++nforms;
#if FL
  if (_duma_del.DelPtr) { viol("CPP", "depth of the delete expressions is %d after %s", _duma_del.DelPtr, what); _duma_del.DelPtr = 0; }
#endif
  if (logging && depth) {
    char *t = fresh(), w[700];
    snprintf(w, sizeof w, "DUMA: Freeing %zu byte(s) at %s(%d) (", sizeof(Chain), __FILE__, innerline);
    if (occurs(t, w) != depth - 1) viol("CPP", "%s: %d of %d inner ones have their own position (%s)", what, occurs(t, w), depth - 1, w);
    snprintf(w, sizeof w, "DUMA: Freeing %zu byte(s) at %s(%d) (", sizeof(Chain), __FILE__, at);
    if (occurs(t, w) != 1) viol("CPP", "%s: the outermost one has not its own position", what);
    snprintf(w, sizeof w, "DUMA: Freeing 77 byte(s) at %s(%d) (Allocated from %s(%d)).", __FILE__, innerline + 1, __FILE__, tline);
    if (occurs(t, w) != 1) viol("CPP", "%s: the array deleted after the nesting has not its own position", what);
    nlog += depth;
  }
  situation(mix(4711, (u64)depth));
}
struct Thrower { char c[91]; ~Thrower() noexcept(false) { throw 7; } };
static Thrower *refuse(int x) { if (x) throw 7; return 0; }
// delete expressions that are left by an exception, many of them
static void left(int n) {
  snprintf(what, sizeof what, "%d delete expressions left by exceptions", n);
  int got = 0;
  for (int i = 0; i < n; ++i) {
    Thrower *t = NEW_ELEM(Thrower); Thrower *a = NEW_ARRAY(Thrower, 1);
    try { DEL_ELEM(t); } catch (int x) { got += x == 7; }
    try { DEL_ARRAY(a); } catch (int x) { got += x == 7; }
    try { DEL_ELEM_NOTHROW(refuse(1)); } catch (int x) { got += x == 7; }
  }
  if (got != 3 * n) viol("CPP", "%s: %d exceptions", what, got);
#if FL
  if (_duma_del.DelPtr) { viol("CPP", "depth of the delete expressions is %d after %s", _duma_del.DelPtr, what); _duma_del.DelPtr = 0; }
#endif
  nforms += n; situation(mix(4713, (u64)n));
}
#if FL
// more nested delete expressions than there is room for: the program stops and says so
static void toodeep(int depth) {
  snprintf(what, sizeof what, "%d nested delete expressions", depth);
  int out = memfd_create("o", 0);
  pid_t c = fork();
  if (!c) {
    signal(SIGSEGV, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGABRT, SIG_DFL);
    dup2(out, 2);
    Chain *h = chain(depth);
    DEL_ELEM(h);
    _exit(0);
  }
  int st = 0; waitpid(c, &st, 0);
  static char t[400000]; ssize_t k = pread(out, t, sizeof t - 1, 0); t[k < 0 ? 0 : k] = 0; close(out);
  ++nforms;
  if (!WIFSIGNALED(st) || !strstr(t, "DUMA_ASSERT(")) viol("CPP", "%s, DUMA_MAX_DEL_DEPTH is %d: status 0x%x, %.200s", what, DUMA_MAX_DEL_DEPTH, st, strlen(t) > 200 ? t + strlen(t) - 200 : t);
}
#endif
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  Rng r(env_u("VT_SEED", 1));
  free(malloc(1));
#if FL
  logging = env_i("DUMA_SHOW_ALLOC", 0) != 0;
#endif
  int err2 = dup(2);
  if (logging) { cap = memfd_create("err", 0); fcntl(cap, F_SETFL, O_APPEND); dup2(cap, 2); }
  long n = env_i("VT_OPS", 50);
  for (long i = 0; i < n && vt_viols < 10; ++i) {
    forms<char>(r, 1, false, "char");
    forms<long>(r, 8, false, "long");
    forms<Obj<1> >(r, 1, true, "Obj<1>");
    forms<Obj<24> >(r, 24, true, "Obj<24>");
    forms<Obj<4096> >(r, 4096, true, "Obj<4096>");
    statements(r);
    thrower(r);
    if (i % 8 == 0) refused(r);
    if (i % 10 == 2) left(i % 20 == 2 ? 300 : (int)r.range(1, 10));
    nested(i % 10 == 0 ? 254 : (int)r.range(1, 40));
#if FL
    if (i % 10 == 1) { toodeep(256 + (int)r.below(3)); toodeep(300); }
#endif
  }
  dup2(err2, 2);
  DUMA_CHECKALL();
  stat_("forms %ld", nforms); stat_("loglines %ld", nlog); stat_("deletes %ld", nnest); stat_("constructions %ld", nctor); stat_("handlers %ld", nrefused);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
