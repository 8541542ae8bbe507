// The allocation log (DUMA_SHOW_ALLOC) against the calls made.
#include "engine.h"
#include <sys/mman.h>
static Engine *E;
static char mem[sizeof(Engine)];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }
static int cap = -1;
static char *text; static size_t ntext; enum { MAXTEXT = 16 << 20 };
static void load() {
  off_t n = lseek(cap, 0, SEEK_END);
  ntext = 0;
  lseek(cap, 0, SEEK_SET);
  while (ntext < (size_t)n && ntext < MAXTEXT - 1) { ssize_t k = read(cap, text + ntext, MAXTEXT - 1 - ntext); if (k <= 0) break; ntext += k; }
  text[ntext] = 0;
  if (ftruncate(cap, 0)) {}
  lseek(cap, 0, SEEK_SET);
}
static Event evs[4096]; static int nev = 0;
static void ev(Engine *, const Event &e) { if (nev < 4096) evs[nev++] = e; }
static bool num(const char *&p, u64 &v) { const char *s = p; v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return p != s; }
static bool lit(const char *&p, const char *s) { const char *q = p; while (*s) if (*q++ != *s++) return false; p = q; return true; }
static long nalloc = 0, nfree = 0, loglines = 0, internal = 0;
struct Pos { const char *f; size_t n; u64 line; };
// "file(line)" up to the given end
static bool pos(const char *&p, const char *end, Pos &o) {
  const char *e = xfind(p, end);
  if (!e) return false;
  const char *nl = p; while (*nl && *nl != '\n') ++nl;
  if (e > nl) return false;
  const char *b = e;
  while (b > p && b[-1] >= '0' && b[-1] <= '9') --b;
  if (b <= p || b[-1] != '(') return false;
  o.f = p; o.n = b - 1 - p;
  const char *q = b; if (!num(q, o.line)) return false;
  p = e;
  return lit(p, end);
}
static bool own(const Pos &o) { return o.n >= 6 && (!strncmp(o.f + o.n - 6, "duma.c", 6)) && o.line > 0; }
static bool same(const Pos &o, const char *f, int l) {
  if (o.line != (u64)(l > 0 ? l : 0)) return false;
  return l <= 0 || !f || (o.n == xlen(f) && !strncmp(o.f, f, o.n));
}
static void judge() {
  const char *p = text;
  int at = 0;
  while (*p) {
    const char *l0 = p;
    if (*p == '\n') { ++p; if (*p == '\n' || !*p) { viol("LOG", "blank line in the log: %.100s", l0); return; } }
    u64 sz; Pos o = {0, 0, 0}, from = {0, 0, 0};
    bool al = false;
    if (lit(p, "DUMA: Allocating ")) {
      al = true;
      if (!num(p, sz) || !lit(p, " byte(s)")) { viol("LOG", "unreadable: %.100s", l0); return; }
#if HAVE_FL
      if (!lit(p, " at ") || !pos(p, ").", o)) { viol("LOG", "unreadable position: %.100s", l0); return; }
#else
      if (!lit(p, ".")) { viol("LOG", "unreadable: %.100s", l0); return; }
#endif
      if (sz == 0 && !lit(p, " This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0.")) viol("LOG", "no remark for a zero-size allocation: %.100s", l0);
      ++nalloc;
    } else if (lit(p, "DUMA: Freeing ")) {
      if (!num(p, sz) || !lit(p, " byte(s)")) { viol("LOG", "unreadable: %.100s", l0); return; }
#if HAVE_FL
      if (!lit(p, " at ") || !pos(p, ") (Allocated from ", o) || !pos(p, ")).", from)) { viol("LOG", "unreadable position: %.100s", l0); return; }
#else
      if (!lit(p, ".")) { viol("LOG", "unreadable: %.100s", l0); return; }
#endif
      ++nfree;
    } else { viol("LOG", "unexpected output: %.100s", l0); return; }
    ++loglines;
    bool in = HAVE_FL ? own(o) : false;
    if (!HAVE_FL && (at >= nev || evs[at].alloc != al || evs[at].size != sz)) in = sz % PG == 0 && sz > 0;   // the table's growth
    if (in) { ++internal; if (sz % PG) viol("LOG", "internal allocation of %lu bytes", (unsigned long)sz); continue; }
    if (at >= nev) { viol("LOG", "a line too much: %.100s", l0); return; }
    Event &e = evs[at++];
    if (e.alloc != al || e.size != sz) { viol("LOG", "expected %s of %zu bytes, the log says: %.100s", e.alloc ? "allocation" : "release", e.size, l0); return; }
#if HAVE_FL
    if (!same(o, e.file, e.line)) { viol("LOG", "expected position %s(%d), the log says: %.150s", e.file ? e.file : "-", e.line, l0); return; }
    if (!al && !same(from, e.afile, e.aline)) { viol("LOG", "block was allocated at %s(%d), the log says: %.150s", e.afile ? e.afile : "-", e.aline, l0); return; }
#endif
    situation(mix(mix(al, sz < 5000 ? sz : 5000), e.line > 0));
  }
  if (at < nev) viol("LOG", "no line for the %s of %zu bytes", evs[at].alloc ? "allocation" : "release", evs[at].size);
}
#if HAVE_FL
static bool totals(const char *&p, u64 &a, u64 &f) {
  p = xfind(p, "\nDUMA:   Allocation(s): ");
  return p && lit(p, "\nDUMA:   Allocation(s): ") && num(p, a) && lit(p, "\nDUMA: Deallocation(s): ") && num(p, f) && lit(p, "\n");
}
#endif
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  cap = memfd_create("log", 0);
  text = (char *)mmap(0, MAXTEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  E->maxlive = (int)env_i("VT_LIVE", 60);
  E->zeropct = (int)env_i("VT_ZERO", 5);
  E->maxline = 2000000000;
  E->ev = ev;
  dup2(cap, 2);
  E->baseline();
  load();
#if HAVE_FL
  u64 a0 = 0, f0 = 0, a1, f1;
  a_delframe(); load();
  const char *p = text;
  if (!totals(p, a0, f0)) viol("LOG", "no totals from DUMA_delFrame: %.200s", text);
#endif
  long ops = env_i("VT_OPS", 600);
  for (long i = 0; i < ops && !vt_viols; ++i) {
    nev = 0;
    E->step();
    load();
    judge();
#if HAVE_FL
    if (i % 50 == 49) {
      a_delframe(); load();
      p = text;
      if (!totals(p, a1, f1)) viol("LOG", "no totals from DUMA_delFrame: %.200s", text);
      else if (a1 - a0 != (u64)nalloc || f1 - f0 != (u64)nfree) viol("LOG", "totals say %lu allocations and %lu releases since the start, there were %ld and %ld", (unsigned long)(a1 - a0), (unsigned long)(f1 - f0), nalloc, nfree);
    }
    if (i % 200 == 199) {
      pid_t pid = fork();
      if (!pid) exit(0);
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      load(); p = text;
      if (!totals(p, a1, f1)) viol("LOG", "no totals at program end: %.200s", text);
      // libc's exit handlers may release memory
      else if (a1 - a0 < (u64)nalloc || a1 - a0 > (u64)nalloc + 5 || f1 - f0 < (u64)nfree || f1 - f0 > (u64)nfree + 50) viol("LOG", "totals at program end say %lu and %lu since the start, there were %ld and %ld", (unsigned long)(a1 - a0), (unsigned long)(f1 - f0), nalloc, nfree);
      else if (totals(p, a1, f1)) viol("LOG", "totals are printed twice");
    }
#endif
  }
  // sizes beyond 31 and 32 bits
  for (int i = 0; i < (int)env_i("VT_HUGE", 0) && !vt_viols; ++i) {
    static const size_t hs[] = {((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 32) - 1, ((size_t)1 << 32) + 5, (size_t)9 << 30};
    size_t n = hs[i % 5];
    int l = (int)E->r.range(1, 100000);
    void *v = a_malloc(n, "huge.c", l);
    if (!v) { stat_("hugerefused 1"); continue; }
    stat_("huge 1");
    a_free(v, "hugef.c", l + 1);
    nev = 0;
    Event a = {true, n, "huge.c", l, 0, 0}, f = {false, n, "hugef.c", l + 1, "huge.c", l};
    evs[nev++] = a; evs[nev++] = f;
    load(); judge();
  }
  stat_("loglines %ld", loglines); stat_("internal %ld", internal); stat_("ops %ld", E->op);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
