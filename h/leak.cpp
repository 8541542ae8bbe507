// The leak report against the model of the live blocks.
#include "engine.h"
#include <sys/mman.h>
static Engine *E;
static char mem[sizeof(Engine)];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }
static int cap = -1;
static char *text; static size_t ntext; enum { MAXTEXT = 16 << 20 };
static long reports = 0, lines = 0, silent = 0;
static void load() {
  off_t n = lseek(cap, 0, SEEK_END);
  ntext = 0;
  lseek(cap, 0, SEEK_SET);
  while (ntext < (size_t)n && ntext < MAXTEXT - 1) { ssize_t k = read(cap, text + ntext, MAXTEXT - 1 - ntext); if (k <= 0) break; ntext += k; }
  text[ntext] = 0;
  if (ftruncate(cap, 0)) {}
  lseek(cap, 0, SEEK_SET);
}
static bool num(const char *&p, int base, u64 &v) {
  const char *s = p; v = 0;
  for (;; ++p) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10 : 99;
    if (d >= base) break;
    v = v * base + d;
  }
  return p != s;
}
static bool lit(const char *&p, const char *s) { const char *q = p; while (*s) if (*q++ != *s++) return false; p = q; return true; }
// blocks that are live before the history starts (of the C++ runtime)
static uintptr_t early[64]; static int nearly = 0; static long nextra = 0;
static bool *seen;
static int all_leaks;
// what: 0 the first report (learn), 1 compare
static void judge(bool learn, const char *when) {
  ++reports;
  const char *p = text;
  long got = 0, sum_rep = -1, sum_extra = -1;
  for (int i = 0; i < E->n; ++i) seen[i] = false;
  bool eseen[64] = {0};
  while (*p) {
    if (*p == '\n') { ++p; continue; }
    u64 a, sz, v;
    if (lit(p, "DUMA: ptr=0x")) {
      ++lines; ++got;
      if (sum_rep >= 0) viol("LEAK", "%s: a leak is reported behind the totals", when);
      if (!num(p, 16, a) || !lit(p, " size=") || !num(p, 10, sz) || !lit(p, " type='")) { viol("LEAK", "%s: unreadable: %.100s", when, p); return; }
      const char *ty = p; while (*p && *p != '\'') ++p;
      size_t nty = p - ty;
      ++p;
      const char *file = 0; size_t nfile = 0; u64 line = 0;
      if (lit(p, " alloced from ")) {
        file = p; const char *e = p; while (*e && *e != '\n') ++e;
        while (e > p && *e != '(') --e;
        nfile = e - file; p = e + 1;
        if (!num(p, 10, line) || !lit(p, ")")) { viol("LEAK", "%s: unreadable position: %.100s", when, p); return; }
      }
      if (!lit(p, " not freed\n")) { viol("LEAK", "%s: unreadable end: %.100s", when, p); return; }
      if (learn) { if (line > 0) viol("LEAK", "%s: a block %lx nobody allocated is reported", when, (unsigned long)a); else if (nearly < 64) early[nearly++] = a; continue; }
      int i = 0;
      while (i < E->n && ((uintptr_t)E->live[i].p != a || E->live[i].shared)) ++i;
      if (i == E->n) {
        int j = 0; while (j < nearly && early[j] != a) ++j;
        if (j == nearly) viol("LEAK", "%s: %lx (size %lu) is reported but not a live block", when, (unsigned long)a, (unsigned long)sz);
        else if (eseen[j]) viol("LEAK", "%s: %lx is reported twice", when, (unsigned long)a);
        else eseen[j] = true;
        continue;
      }
      Blk &b = E->live[i];
      if (seen[i]) viol("LEAK", "%s: block %p is reported twice", when, b.p);
      seen[i] = true;
      if (sz != b.sz) viol("LEAK", "%s: block %p of %zu bytes is reported with size %lu", when, b.p, b.sz, (unsigned long)sz);
      const char *t = b.kind == K_XC ? "malloc()" : kind_type(b.kind);
      if (nty != xlen(t) || strncmp(ty, t, nty)) viol("LEAK", "%s: block of %s is reported as %.*s", when, kind_name(b.kind), (int)nty, ty);
      if (file) {
        if (line != (u64)(b.line > 0 ? b.line : 0)) viol("LEAK", "%s: block %p from %s(%d) is reported from line %lu", when, b.p, b.file ? b.file : "-", b.line, (unsigned long)line);
        if (b.line > 0 && (nfile != xlen(b.file) || strncmp(file, b.file, nfile))) viol("LEAK", "%s: block %p from %s is reported from %.*s", when, b.p, b.file, (int)nfile, file);
      }
      if (b.line == 0 && !all_leaks) viol("LEAK", "%s: block %p without position is reported", when, b.p);
    } else if (lit(p, "DUMA: Reported ")) {
      if (sum_rep >= 0) viol("LEAK", "%s: totals are reported twice", when);
      if (!num(p, 10, v) || !lit(p, " leak(s).\nDUMA: There are ")) { viol("LEAK", "%s: unreadable totals: %.100s", when, p); return; }
      sum_rep = v;
      if (!num(p, 10, v) || !lit(p, " extra leak(s) without allocation information.\n")) { viol("LEAK", "%s: unreadable totals: %.100s", when, p); return; }
      sum_extra = v;
    } else { viol("LEAK", "%s: unexpected output: %.120s", when, p); return; }
  }
  if (learn) { nextra = sum_extra > 0 ? sum_extra : 0; if (sum_rep > 0 && !all_leaks) viol("LEAK", "leaks are reported at the start"); return; }
  long want = 0, extra = 0;
  for (int i = 0; i < E->n; ++i) {
    Blk &b = E->live[i];
    if (b.shared) continue;
    bool rep = all_leaks || b.line > 0;
    if (rep) { ++want; if (!seen[i]) viol("LEAK", "%s: %zu-byte block %p from %s, %s(%d) is not reported", when, b.sz, b.p, kind_name(b.kind), b.file ? b.file : "-", b.line); }
    else ++extra;
  }
  if (all_leaks) want += nearly; else extra += nextra;
  if (all_leaks) for (int j = 0; j < nearly; ++j) if (!eseen[j]) viol("LEAK", "%s: an early block is not reported any more", when);
  if (sum_rep < 0) {
    if (want + extra) viol("LEAK", "%s: no totals, though %ld blocks are live", when, want + extra); else ++silent;
    return;
  }
  if (want + extra == 0) viol("LEAK", "%s: totals though nothing leaked", when);
  if (sum_rep != want || got != want) viol("LEAK", "%s: %ld leaks in the totals, %ld listed, %ld expected", when, sum_rep, got, want);
  if (sum_extra != extra) viol("LEAK", "%s: %ld extra leaks in the totals, %ld expected", when, sum_extra, extra);
  situation(mix(mix(want, extra), all_leaks));
}
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  cap = memfd_create("report", 0);
  text = (char *)mmap(0, MAXTEXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  seen = (bool *)mmap(0, 20000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  dup2(cap, 2);
  all_leaks = env_i("DUMA_REPORT_ALL_LEAKS", 0) != 0;
  E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  E->maxlive = (int)env_i("VT_LIVE", 40);
  E->zeropct = (int)env_i("VT_ZERO", 3);
  E->cpp = (int)env_i("VT_CPP", 1);
  E->alignbig = (int)env_i("VT_ALIGNBIG", 1);
  E->maxline = 2000000000;
  E->baseline();
  load(); ntext = 0; text[0] = 0;
  a_delframe(); load(); judge(true, "at start");
  long rounds = env_i("VT_ROUNDS", 40), per = env_i("VT_PER", 30);
  for (long c = 0; c < rounds; ++c) {
    E->run(E->r.below(per), 0);
    if (E->r.pct(15)) while (E->n) E->do_free();
    // something that is no leak
    if (E->r.pct(30)) { Blk &b = E->live[0]; if (E->n) DUMA_CHECK(b.p); DUMA_CHECKALL(); }
    load();
    if (ntext) viol("LEAK", "output of a correct program: %.200s", text);
    a_delframe();
    load();
    judge(false, "DUMA_delFrame");
    if (E->r.pct(40)) {
      // the end of the program, in a child with the same heap
      int how = (int)E->r.below(3);
      pid_t pid = fork();
      if (!pid) { if (how == 2) { for (int i = 0; i < 3; ++i) if (E->n) E->do_free(); } exit(0); }
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("LEAK", "program with leaks ends with status %x", st);
      load();
      if (how != 2) judge(false, "program end");
    }
    if (vt_viols) break;
  }
  E->finish();
  stat_("reports %ld", reports); stat_("lines %ld", lines); stat_("silent %ld", silent); stat_("ops %ld", E->op);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
