// A whole process life: the same heap history goes on in every phase of the process, from preinit_array
// to the last destructor, in threads, in forked children (which may live on to their own end) and in
// replaced images.  VT_PHASES: bits of the phases in which the library is used.
#include "engine.h"
#include <dlfcn.h>
extern char **environ;

enum Phase {
  P_PRE, P_C101, P_C200, P_C500, P_PRIO, P_CDEF, P_STATIC, P_MAIN, P_THREAD, P_TLS, P_KEY, P_MAIN2, P_SIGNAL,
  P_ATEXIT, P_ONEXIT, P_QUICK, P_SDTOR, P_DDEF, P_D500, P_D200, P_D101, P_N
};
static const char *const PN[] = {"preinit", "constructor(101)", "constructor(200)", "constructor(500)", "init_priority", "constructor", "static object",
  "main", "thread", "thread_local destructor", "key destructor", "end of main", "signal handler", "atexit", "on_exit", "at_quick_exit", "static destructor",
  "destructor", "destructor(500)", "destructor(200)", "destructor(101)"};
static Engine *E;
alignas(Engine) static char emem[sizeof(Engine)];
static int cur = -1, depth = 0, first = -1;
static bool inited = false, nullenv = false, parent_of = false;
static int initphase = -1, fin = 0;
static long phases = 0, forks = 0, errs = 0, cross = 0, tests = 0;
static void ctx(char *b, size_t n) { snprintf(b, n, "%s, depth %d, %s", cur >= 0 ? PN[cur] : "-", depth, E ? E->what : ""); }

static void defaults(Engine *e) { char *none[1] = {0}; char **k = vt_envp; vt_envp = none; e->c.from_env(); vt_envp = k; }
static void settings() {
  bool unread = nullenv;
#ifdef DUMA_EXPLICIT_INIT
  unread = !inited;
#endif
  if (unread) defaults(E); else E->c.from_env();
}
static void do_init() {
#ifdef DUMA_EXPLICIT_INIT
  if (inited) return;
  duma_init();
  inited = true;
  if (!environ) nullenv = true;
  if (!E) return;
  Cfg o = E->c;          // what has been set by macros before stays, unless the environment says otherwise
  settings();
  if (!env_s("DUMA_ALIGNMENT", 0)) E->c.align = o.align;
  if (!env_s("DUMA_PROTECT_BELOW", 0)) E->c.pb = o.pb;
  if (!env_s("DUMA_FILL", 0)) E->c.fill = o.fill;
  if (E->c.pf >= 0) E->limited = true;
#endif
}
// memory that is accessible now and not part of a block of the history
static void rebaseline() {
  Engine *e = E;
  maps_read();
  int m = 0;
  for (int i = 0; i < e->n; ++i) {
    Blk &b = e->live[i];
    if (b.zero) continue;
    e->iv[m].a = rdn((uintptr_t)b.p); e->iv[m].b = rup((uintptr_t)b.p + b.sz); ++m;
  }
  Engine::sort_iv(e->iv, m);
  e->nbase = 0;
  for (int i = 0; i < vt_nmaps; ++i) {
    if (!(vt_maps[i].r || vt_maps[i].w || vt_maps[i].x)) continue;
    uintptr_t a = vt_maps[i].a;
    for (int j = 0; j <= m && a < vt_maps[i].b; ++j) {
      uintptr_t lo = j < m ? e->iv[j].a : vt_maps[i].b, hi = j < m ? e->iv[j].b : vt_maps[i].b;
      if (hi <= a) continue;
      if (lo > vt_maps[i].b) lo = vt_maps[i].b;
      if (lo > a && e->nbase < 4096) { e->base[e->nbase] = vt_maps[i]; e->base[e->nbase].a = a; e->base[e->nbase].b = lo; ++e->nbase; }
      a = hi;
    }
  }
}
static void verify_all(const char *when) {
  Engine *e = E;
  for (int i = 0; i < e->n; ++i) {
    Blk &b = e->live[i];
    snprintf(e->what, sizeof e->what, "%s: %s block %p+%zu of phase %s", when, kind_name(b.kind), b.p, b.sz, PN[b.pin % P_N]);
    if (!b.zero) { if (!alive(b.p)) { viol("LIFE", "block is no more accessible"); continue; } e->check_pat(b, b.p, b.sz, when); }
    e->probe_guard(b, false);
    if (!b.zero) { size_t us = a_usable(b.p); if (us != b.sz) viol("LIFE", "usable size of the %zu-byte block is %zu", b.sz, us); }
    ++e->checks;
  }
}
// freed blocks stay inaccessible whatever happened since
static void verify_freed() {
  Engine *e = E;
  if (!e->reissue_forbidden()) return;
  maps_read();
  for (long j = 0; j < e->nfr; ++j)
    if (maps_acc(rdn(e->fr[j].p)) || maps_acc(rdn(e->fr[j].p + e->fr[j].sz - 1))) {
      viol("UAF", "freed block %p+%zu is accessible at the start of phase %s", (void *)e->fr[j].p, e->fr[j].sz, PN[cur]);
      break;
    }
  ++tests;
}
// a defect committed in a child is stopped, and does not touch this process
static void defect() {
  Engine *e = E;
  int k = (int)e->r.below(7);
  Blk *b = 0;
  for (int t = 0; t < 30 && e->n; ++t) { Blk &x = e->live[e->r.below(e->n)]; if (!x.zero) { b = &x; break; } }
  if (!b) return;
  u64 rnd = e->r.next();
  if (k == 5 && !(b->pb ? rup((uintptr_t)b->p + b->sz) - ((uintptr_t)b->p + b->sz) : (uintptr_t)b->p % PG)) k = 0;
  snprintf(e->what, sizeof e->what, "defect %d on %s block %p+%zu", k, kind_name(b->kind), b->p, b->sz);
  Child &c = in_child([&] {
    volatile char *p = b->p;
    int fam = b->fam;
    auto rel = [&](int f) { a_deallocate(b->p, f == F_C ? EFA_FREE : f == F_NEW ? EFA_DEL_ELEM : f == F_ARR ? EFA_DEL_ARRAY : f == F_MNEW ? EFA_MEMBER_DEL_ELEM : EFA_MEMBER_DEL_ARRAY, "defect.c", 7); };
    switch (k) {
    case 0: case 6: if (b->pb) p[-1 - (long)(rnd % PG)] = 1; else { uintptr_t g = rup((uintptr_t)b->p + b->sz); ((volatile char *)g)[rnd % PG] = 1; } break;
    case 1: rel(fam); { volatile char x = p[rnd % b->sz]; (void)x; } break;
    case 2: rel(fam); rel(fam); break;
    case 3: a_free(b->p + 1 + rnd % (b->sz + 5), "defect.c", 7); break;
    case 4: rel(fam == F_C ? F_NEW : F_C); break;
    case 5: if (b->pb) p[b->sz] ^= 1; else p[-1] ^= 1; rel(fam); break;
    }
  });
  ++errs; ++forks;
  bool segv = k == 0 || k == 1 || k == 6;
#ifdef DUMA_NO_CPP_SUPPORT
#endif
  if (c.timeout) { viol("LIFE", "child with defect %d hangs", k); return; }
  if (segv ? !killed(c, SIGSEGV) : !aborted(c))
    viol("LIFE", "defect %d was not stopped: status %x, output %.300s", k, c.status, c.out);
  situation(mix(mix(9000 + k, cur), b->fam));
}
static bool lives_on = false;
static void final_out();
static void done_at(int p) { if (cur == p) final_out(); }

static void steps(int ops) {
  Engine *e = E;
  for (int i = 0; i < ops; ++i) {
    int n0 = e->n;
    e->step();
    (void)n0;
    for (int j = 0; j < e->n; ++j) if (e->live[j].pin == 0) e->live[j].pin = (u8)cur + P_N;   // 0 marks a new block
  }
}
static void after_release(Engine *e, const Blk &b) {
  if (b.pin && b.pin % P_N != cur) { ++cross; situation(mix(mix(5000, b.pin % P_N), cur)); }
  (void)e;
}
static bool used(int p) { return (env_u("VT_PHASES", ~0ull) >> p) & 1; }

static void create(int p) {
  install_probes();
  vt_context = ctx;
  first = p;
  depth = (int)env_i("VT_DEPTH", 0);
  u64 seed = env_u("VT_SEED", 1) + 0x51ull * depth;
  E = new ((void *)emem) Engine(seed, 4000);
  Engine *e = E;
  e->maxlive = (int)env_i("VT_LIVE", 60);
  e->zeropct = (int)env_i("VT_ZERO", 3);
  e->bigpct = (int)env_i("VT_BIG", 1);
  e->dyn = (int)env_i("VT_DYN", 0);
  e->cpp = (int)env_i("VT_CPP", 1);
  e->pre = after_release;
  e->base = (Map *)mmap(0, sizeof(Map) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (!environ && !_duma_g.allocList) nullenv = true;
#ifdef DUMA_EXPLICIT_INIT
  nullenv = false;
#endif
  settings();
  // whatever comes first
  int w = (int)(env_i("VT_FIRST", 0));
  snprintf(e->what, sizeof e->what, "first call %d", w);
  switch (w) {
  case 1: a_free(0, "first.c", 1); break;
  case 2: DUMA_CHECKALL(); break;
  case 3: { void *q = a_realloc(0, 77, "first.c", 1); a_free(q, "first.c", 2); break; }
  case 4: { void *q = 0; int r = a_posix_memalign(&q, 64, 100, "first.c", 1); if (r || !q) viol("LIFE", "posix_memalign failed"); a_free(q, "first.c", 2); break; }
  case 5: { char *q = a_strdup("first", "first.c", 1); if (!q || q[4] != 't' || q[5]) viol("LIFE", "strdup is wrong"); a_free(q, "first.c", 2); break; }
  case 6: a_delframe(); break;
  case 7: DUMA_SET_FILL((int)E->c.fill); break;
  case 8: DUMA_SET_ALIGNMENT((int)E->c.align); break;
  case 9: DUMA_SET_PROTECT_BELOW((int)E->c.pb); break;
  case 10: { char s[9], d[9]; for (int i = 0; i < 9; ++i) s[i] = (char)i, d[i] = 0; a_memcpy(d, s, 9, "first.c", 1); if (d[8] != 8) viol("LIFE", "memcpy is wrong"); break; }
  case 11: { char d[9]; a_strcpy(d, "abc", "first.c", 1); a_strcat(d, "def", "first.c", 1); if (d[5] != 'f' || d[6]) viol("LIFE", "strcat is wrong"); break; }
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
  case 12: { void *q = malloc(0); free(q); break; }
  case 13: { void *q = calloc(3, 5); if (!q || ((char *)q)[14]) viol("LIFE", "calloc is wrong"); free(q); break; }
  case 14: if (malloc_usable_size(0)) viol("LIFE", "usable size of NULL"); break;
#endif
#ifndef DUMA_NO_CPP_SUPPORT
  case 15: { int *q = new int[10]; delete[] q; break; }
  case 16: { delete (int *)0; break; }
  case 18:
    switch (e->r.below(4)) {
    case 0: ::operator delete((void *)0); break;
    case 1: ::operator delete[]((void *)0); break;
    case 2: ::operator delete((void *)0, std::nothrow); break;
    case 3: ::operator delete[]((void *)0, std::nothrow); break;
    }
    break;
#if HAVE_FL
  case 19:
    switch (e->r.below(4)) {
    case 0: ::operator delete((void *)0, "first.c", 1); break;
    case 1: ::operator delete[]((void *)0, "first.c", 1); break;
    case 2: ::operator delete((void *)0, std::nothrow, "first.c", 1); break;
    case 3: ::operator delete[]((void *)0, std::nothrow, "first.c", 1); break;
    }
    break;
#endif
#endif
  case 17: { int *q = (int *)a_memalign(1024, 3000, "first.c", 1); if ((uintptr_t)q & 1023) viol("ALIGN", "memalign is wrong"); a_free(q, "first.c", 2); break; }
  case 20: DUMA_CHECK((void *)0); break;
  case 21: if (a_usable(0)) viol("LIFE", "usable size of NULL"); break;
  case 22: { void *q = a_realloc(0, 0, "first.c", 1); a_free(q, "first.c", 2); break; }
  case 23: {      // a child whose first call it is
    int pid = fork(), st;
    if (!pid) { char *q = a_strdup("first", "first.c", 1); _exit(q && q[4] == 't' ? 0 : 9); }
    if (waitpid(pid, &st, 0) != pid || st) viol("LIFE", "a child forked before the first allocation failed");
    break;
  }
  case 24: a_deallocate(0, EFA_FREE, "first.c", 1); break;
  default: {      // any allocation; _duma_allocate() and _duma_deallocate() need an initialised library
    int k;
    for (;;) {
      k = (int)e->r.below(K_MNEW);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
      if (k < K_NEW && k != K_DMALLOC && k != K_DCALLOC && k != K_DMEMALIGN && k != K_DPMEMALIGN && k != K_DVALLOC && k != K_DSTRDUP && k != K_DREALLOC0) continue;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
      if (k >= K_NEW) continue;
#endif
#if !HAVE_FL
      if (k == K_DNEW || k == K_DNEWN || k == K_DARR || k == K_DARRN) continue;
#endif
      break;
    }
    cur = p;
    rebaseline();
    int i = e->do_alloc(k);
    if (i >= 0) e->live[i].pin = (u8)(p + P_N);
    break;
  }
  }
  a_free(a_malloc(5, "first.c", 3), "first.c", 4);
  situation(mix(mix(4000 + w, p), 1));
}

static void phase(int p);
// a child of this process: goes on with the inherited heap, ends at once or later by itself
static void do_fork(int p) {
  Engine *e = E;
  if (depth >= (int)env_i("VT_MAXDEPTH", 2)) return;
  u64 cseed = e->r.next();
  int how = (int)e->r.below(4), ops = (int)e->r.range(5, 60);
  // ways: 0 works and _exits, 1 lives on, 2 replaces itself by a new image, 3 as 0 with everything released
  snprintf(e->what, sizeof e->what, "fork %d", how);
  fflush(0);
  pid_t pid = fork();
  ++forks;
  if (pid < 0) { stat_("forkfailed 1"); return; }
  if (pid == 0) {
    alarm(40);
    ++depth;
    // counters start again: the parent's are its own
    e->op = e->allocs = e->frees = e->reallocs = e->probes = e->sweeps = e->sweptpages = e->checks = 0;
    phases = forks = errs = cross = tests = 0;
    vt_viols = 0;
    e->r = Rng(cseed);
    if (how == 2) {
      static char dep[40], sd[60], ph[60];
      snprintf(dep, sizeof dep, "VT_DEPTH=%d", depth);
      snprintf(sd, sizeof sd, "VT_SEED=%llu", (unsigned long long)(cseed >> 8));
      snprintf(ph, sizeof ph, "VT_PHASES=%llu", (unsigned long long)(cseed >> 20 | 1ull << P_MAIN));
      static char *ev[400]; int n = 0;
      char **src = vt_envp ? vt_envp : environ;
      for (char **x = src; x && *x && n < 390; ++x) if (!xfind(*x, "VT_DEPTH=") && !xfind(*x, "VT_SEED=") && !xfind(*x, "VT_PHASES=")) ev[n++] = *x;
      ev[n++] = dep; ev[n++] = sd; ev[n++] = ph; ev[n] = 0;
      static char *av[2]; av[0] = (char *)"life";
      static char self[512]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
      if (k > 0) execve(self, av, ev);
      stat_("execfailed 1"); _exit(9);
    }
    verify_all("in the child");
    steps(ops);
    if (how == 3) e->finish(true);
    e->sweep();
    if (how == 1 && fin == 0) { lives_on = true; return; }
    final_out();
    _exit(vt_viols ? 9 : 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  snprintf(e->what, sizeof e->what, "after child %d", how);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) viol("LIFE", "child (way %d) forked in phase %s hangs", how, PN[p]);
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 9)) viol("LIFE", "child (way %d) forked in phase %s ended with status %x", how, PN[p], st);
    else ++vt_viols;
  }
  verify_all("after a child");
  e->sweep();
  situation(mix(mix(3000, p), how));
}
static void phase(int p) {
  if (!used(p)) return;
  int before = cur;
  cur = p;
  // a sanitizer's runtime blocks all signals once it has given up the main thread: the probes need theirs
  sigset_t probing;
  sigemptyset(&probing); sigaddset(&probing, SIGSEGV); sigaddset(&probing, SIGBUS); sigaddset(&probing, SIGILL); sigaddset(&probing, SIGTRAP);
  pthread_sigmask(SIG_UNBLOCK, &probing, 0);
  if (!E) create(p);
  Engine *e = E;
  ++phases;
  rebaseline();
  verify_freed();
  verify_all("at the start of a phase");
  e->sweep();
  e->lifo = e->r.pct(15);
  int ops = (int)e->r.range(0, (u64)env_i("VT_OPS", 60));
  steps(ops);
  if (e->r.pct(10)) while (e->n) e->do_free();
  e->sweep();
  situation(mix(2000, mix(p, (u64)first)));
  if (p != P_SIGNAL && e->r.pct((int)env_i("VT_DEFECT", 30))) defect();
  if (p != P_SIGNAL && e->r.pct((int)env_i("VT_FORK", 12))) do_fork(p);
  (void)before;
}
static void final_out() {
  if (fin) return;
  fin = 1;
  if (E) { E->stats(); }
  stat_("phases %ld", phases); stat_("forks %ld", forks); stat_("defects %ld", errs); stat_("crossphase %ld", cross); stat_("freedchecks %ld", tests);
  situations_out();
  stat_("done 1");
}

// ---------------------------------------------------------------- the phases
static void note_env(char **envp) {
  if (!vt_envp) vt_envp = envp;
  if (_duma_g.allocList && !environ) nullenv = true;   // read before the C library set environ
}
#ifndef VT_MSAN         // is not ready then
static void pre_init(int, char **, char **envp) { note_env(envp); phase(P_PRE); }
__attribute__((section(".preinit_array"), used)) static void (*pre_fn)(int, char **, char **) = pre_init;
#endif
__attribute__((constructor(101))) static void c101(int, char **, char **envp) { note_env(envp); phase(P_C101); }
__attribute__((constructor(200))) static void c200(int, char **, char **envp) { note_env(envp); phase(P_C200); if (env_i("VT_INIT", 0) == 1) do_init(); }
__attribute__((constructor(500))) static void c500(int, char **, char **envp) { note_env(envp); phase(P_C500); }
__attribute__((constructor)) static void cdef(int, char **, char **envp) { note_env(envp); phase(P_CDEF); if (env_i("VT_INIT", 0) == 2) do_init(); }
struct Obj {
  int c, d;
  Obj(int c_, int d_) : c(c_), d(d_) { phase(c); }
  ~Obj() { if (d >= 0) phase(d); }
};
static Obj prio __attribute__((init_priority(300))) (P_PRIO, P_SDTOR);
static Obj plainobj(P_STATIC, P_SDTOR);
__attribute__((destructor)) static void ddef() { phase(P_DDEF); }
__attribute__((destructor(500))) static void d500() { phase(P_D500); }
__attribute__((destructor(200))) static void d200() { phase(P_D200); }
static void end_() {
  if (depth == 0 || lives_on || true) final_out();
  if (vt_viols) _exit(9);
}
__attribute__((destructor(101))) static void d101() { phase(P_D101); end_(); }

static pthread_key_t key;
struct TL { int on = 0; ~TL() { if (on) phase(P_TLS); } };
static thread_local TL tl;
static void keydtor(void *) { phase(P_KEY); }
static void *thread_body(void *x) {
  tl.on = 1;
  pthread_setspecific(key, (void *)&key);
  // the settings by macro are the thread's own start values or the process's: both are the environment's here
  phase(P_THREAD);
  if (x) exit(0);
  return 0;
}
static void at1() { phase(P_ATEXIT); }
static void at2() { phase(P_ATEXIT); }
static void on1(int, void *) { phase(P_ONEXIT); }
static void q1() { phase(P_QUICK); }
static void qlast() { phase(P_QUICK); end_(); _exit(0); }
static void on_sig(int) { phase(P_SIGNAL); }

// children forked while other threads are inside of the library
static volatile int mt_stop;
static volatile long mt_ops, mt_bad;
static void *mt_body(void *x) {
  Rng r((u64)(uintptr_t)x * 977 + env_u("VT_SEED", 1));
  char *p[8]; size_t sz[8];
  for (int i = 0; i < 8; ++i) p[i] = 0, sz[i] = 0;
  while (!__atomic_load_n(&mt_stop, __ATOMIC_RELAXED)) {
    int i = (int)r.below(8);
    if (p[i]) {
      for (size_t k = 0; k < sz[i]; k += 97) if (p[i][k] != (char)(sz[i] + k)) __atomic_add_fetch(&mt_bad, 1, __ATOMIC_RELAXED);
      if (r.pct(20)) { size_t n = r.range(1, 9000); char *q = (char *)a_realloc(p[i], n, "mt.c", 2); if (!q) { __atomic_add_fetch(&mt_bad, 1, __ATOMIC_RELAXED); continue; } p[i] = q; sz[i] = n; for (size_t k = 0; k < n; ++k) q[k] = (char)(n + k); }
      else { a_free(p[i], "mt.c", 3); p[i] = 0; }
    } else { sz[i] = r.range(1, 9000); p[i] = (char *)a_malloc(sz[i], "mt.c", 1); if (!p[i]) { __atomic_add_fetch(&mt_bad, 1, __ATOMIC_RELAXED); continue; } for (size_t k = 0; k < sz[i]; ++k) p[i][k] = (char)(sz[i] + k); }
    if (r.pct(2)) DUMA_CHECKALL();
    __atomic_add_fetch(&mt_ops, 1, __ATOMIC_RELAXED);
  }
  for (int i = 0; i < 8; ++i) a_free(p[i], "mt.c", 4);
  return 0;
}
static void forkmt() {
  Engine *e = E;
  pthread_t t[4];
  int nt = (int)env_i("VT_MT", 3); if (nt > 4) nt = 4;
  char *mine[6];
  for (int i = 0; i < 6; ++i) { mine[i] = (char *)a_malloc(100 + 1000 * i, "mine.c", i + 1); for (int k = 0; k < 100 + 1000 * i; ++k) mine[i][k] = (char)(i + k); }
  for (int i = 0; i < nt; ++i) pthread_create(&t[i], 0, mt_body, (void *)(uintptr_t)(i + 1));
  int rounds = (int)env_i("VT_ROUNDS", 40), hangs = 0;
  for (int k = 0; k < rounds && !hangs; ++k) {
    usleep((useconds_t)(env_u("VT_SEED", 1) * 31 + k * 97) % 700);
    int way = k % 3;
    Child &c = in_child([&] {
      for (int i = 0; i < 6; ++i) { if ((uintptr_t)mine[i] != 0) for (int j = 0; j < 100 + 1000 * i; j += 7) if (mine[i][j] != (char)(i + j)) _exit(21); }
      DUMA_CHECKALL();
      char *q = (char *)a_malloc(500, "child.c", 1);
      if (!q || dead(q)) _exit(22);
      q = (char *)a_realloc(q, 5000, "child.c", 2);
      mine[2] = (char *)a_realloc(mine[2], 7000, "child.c", 3);
      for (int i = 0; i < 6; ++i) a_free(mine[i], "child.c", 4);
      if (way == 1) a_free(mine[1], "child.c", 5);      // again: has to be stopped
      if (way == 2) { ((volatile char *)q)[rup((uintptr_t)q + 5000) - (uintptr_t)q] = 1; _exit(23); }
      a_free(q, "child.c", 6);
      pthread_t ct; void *rr = 0;
      if (k % 4 == 0) { mt_stop = 1; if (pthread_create(&ct, 0, mt_body, (void *)77) || pthread_join(ct, &rr)) _exit(24); }
      DUMA_CHECKALL();
      _exit(0);
    }, 10);
    ++forks;
    bool pb = E->c.pb;
    if (c.timeout) { viol("LIFE", "child forked while threads allocate hangs (round %d)", k); ++hangs; }
    else if (way == 0 ? !exited(c) : way == 1 ? !aborted(c) : !(killed(c, SIGSEGV) || (pb && exited(c, 23))))
      viol("LIFE", "child (way %d) forked while threads allocate: status %x, output %.300s", way, c.status, c.out);
    situation(mix(8000 + way, k));
  }
  __atomic_store_n(&mt_stop, 1, __ATOMIC_RELAXED);
  for (int i = 0; i < nt; ++i) pthread_join(t[i], 0);
  for (int i = 0; i < 6; ++i) { for (int k = 0; k < 100 + 1000 * i; ++k) if (mine[i][k] != (char)(i + k)) { viol("LIFE", "block changed by a child"); break; } a_free(mine[i], "mine.c", 10); }
  if (mt_bad) viol("LIFE", "%ld wrong results in threads while children were forked", mt_bad);
  stat_("mtops %ld", mt_ops); stat_("mtforks %d", rounds);
  e->freedkb += (size_t)1 << 30;        // not known
}

int main(int argc, char **argv, char **envp) {
  (void)argc; (void)argv;
  note_env(envp);
  do_init();
  phase(P_MAIN);
  if (E && env_i("VT_MT", 0) && depth == 0) { forkmt(); rebaseline(); }
  int ending = (int)env_i("VT_END", 0);
  atexit(at1); on_exit(on1, 0); atexit(at2);
  at_quick_exit(qlast); at_quick_exit(q1);
  pthread_key_create(&key, keydtor);
  for (int i = 0; i < 3; ++i) {
    pthread_t t;
    if (pthread_create(&t, 0, thread_body, 0)) { stat_("nothread 1"); continue; }
    pthread_join(t, 0);
    phase(P_MAIN2);
  }
  signal(SIGUSR1, on_sig);
  raise(SIGUSR1);
  tl.on = 1;                                  // the main thread's thread_local objects are destroyed at exit
  phase(P_MAIN2);
  switch (ending) {
  case 1: exit(0);
  case 2: quick_exit(0);
  case 3: { pthread_t t; pthread_create(&t, 0, thread_body, (void *)1); pthread_join(t, 0); pause(); }
  case 4: pthread_setspecific(key, (void *)&key); pthread_exit(0);
  case 5: final_out(); _exit(vt_viols ? 9 : 0);
  }
  return 0;
}
