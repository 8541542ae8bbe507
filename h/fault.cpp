// Histories with the library's memory system calls under observation and under fault.
// Linked with --wrap for mmap, mprotect and munmap, so that only calls of the library and of the harness come here.
#include "engine.h"
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_mprotect(void *, size_t, int);
int __real_munmap(void *, size_t);
}
static int own = 0;                     // the harness itself is calling
static long cnt[3], faults = 0;         // mmap, mprotect, munmap
static int plan_t = -2; static long plan_k, plan_n; static int plan_e;
static Engine *E;
static char mem[sizeof(Engine)];
static size_t mapped = 0, maxmapped = 0;
static long watched = 0;
static int watch = 0, armed_main = 0;

static bool fail_now(int t) {
  if (own) return false;
  if (plan_t == -2) {
    plan_t = (int)env_i("VT_FT", -1); plan_k = env_i("VT_FK", 0); plan_n = env_i("VT_FN", 1); plan_e = (int)env_i("VT_FE", ENOMEM);
  }
  long c = ++cnt[t];
  if (plan_t == t && c >= plan_k && c < plan_k + plan_n) { ++faults; errno = plan_e; return true; }
  return false;
}
// freed blocks whose memory is still held: [lo,hi), left bytes of it
struct Held { uintptr_t lo, hi; size_t left; };
enum { MAXHELD = 60000 };
static Held *held; static int nheld = 0; static size_t heldsum = 0;
// the system refuses memory until only so much is held any more
static bool starving = false; static size_t starve_to = 0; static long starved = 0, starvations = 0;
static void gone(uintptr_t a, uintptr_t b) {
  for (int i = 0; i < nheld; ++i) {
    uintptr_t x = held[i].lo > a ? held[i].lo : a, y = held[i].hi < b ? held[i].hi : b;
    if (x >= y) continue;
    size_t d = y - x; if (d > held[i].left) d = held[i].left;
    held[i].left -= d; heldsum -= d;
    if (!held[i].left) held[i--] = held[--nheld];
  }
}
static void hit_live(const char *what, uintptr_t a, uintptr_t b) {
  if (!E || !watch) return;
  ++watched;
  for (int i = 0; i < E->n; ++i) {
    Blk &l = E->live[i];
    if (l.zero || l.p == E->busy || !l.p) continue;
    uintptr_t lo = rdn((uintptr_t)l.p), hi = rup((uintptr_t)l.p + l.sz);
    if (lo < b && a < hi) { viol("LIVE", "%s of %p+%zu hits the live block %p+%zu", what, (void *)a, (size_t)(b - a), l.p, l.sz); return; }
    if (!(l.pb ? lo - PG < b && a < lo : hi < b && a < hi + PG)) continue;
    if (what[1] == 'u') { viol("LIVE", "%s of %p+%zu hits the guard of the live block %p+%zu", what, (void *)a, (size_t)(b - a), l.p, l.sz); return; }
  }
}
extern "C" void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) {
  if (!own && starving && heldsum > starve_to) { ++starved; errno = ENOMEM; return MAP_FAILED; }
  if (fail_now(0)) return MAP_FAILED;
  void *r = __real_mmap(a, n, p, f, d, o);
  if (!own && r != MAP_FAILED) { mapped += rup(n); if (mapped > maxmapped) maxmapped = mapped; }
  return r;
}
extern "C" int __wrap_mprotect(void *a, size_t n, int p) {
  if (fail_now(1)) return -1;
  if (!own && p == PROT_NONE) hit_live("mprotect", (uintptr_t)a, (uintptr_t)a + n);
  return __real_mprotect(a, n, p);
}
extern "C" int __wrap_munmap(void *a, size_t n) {
  if (fail_now(2)) return -1;
  if (!own) hit_live("munmap", (uintptr_t)a, (uintptr_t)a + n);
  int r = __real_munmap(a, n);
  if (!own && !r) { mapped -= rup(n); if (held) gone((uintptr_t)a, (uintptr_t)a + n); }
  return r;
}
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }

static size_t maxheld = 0; static long heldchecks = 0;
static Held pend;
static void pre(Engine *, const Blk &b) {
  uintptr_t p = (uintptr_t)b.p;
  pend.left = 0;
  if (b.shared || !b.p) return;
  if (b.zero) { pend.lo = rdn(p); pend.hi = pend.lo + PG; }
  else if (b.pb) { pend.lo = p - PG; pend.hi = rup(p + b.sz); }
  else { pend.lo = rdn(p); pend.hi = rup(p + b.sz) + PG; }
  pend.left = pend.hi - pend.lo;
  if (nheld < MAXHELD) { held[nheld++] = pend; heldsum += pend.left; } else pend.left = 0;
}
static void post(Engine *e, bool released) {
  if (pend.left && !released && nheld && held[nheld - 1].lo == pend.lo) { heldsum -= held[nheld - 1].left; --nheld; }
  if (!released) return;
  if (heldsum > maxheld) maxheld = heldsum;
  ++heldchecks;
  if (plan_t < 0 && e->c.pf >= 0 && heldsum > (size_t)e->c.pf * 1024)
    viol("LIMIT", "%zu kB of freed memory are held with DUMA_PROTECT_FREE=%ld", heldsum >> 10, e->c.pf);
}
// the library stops the program: the live blocks have to be whole at that time
static void on_ill(int) {
  watch = 0;
  signal(SIGILL, SIG_DFL);
  for (int i = 0; i < E->n; ++i) {
    Blk &b = E->live[i];
    if (b.p == E->busy) continue;
    if (!b.zero) E->check_pat(b, b.p, b.sz, "when stopped");
    if (plan_t != 1) E->probe_guard(b, false);
  }
  stat_("stopped 1"); stat_("faults %ld", faults);
  situations_out();
  stat_("done 1");
  raise(SIGILL);
}
int main() {
  own = 1;
  install_probes();
  vt_context = ctx;
  E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  held = (Held *)mmap(0, sizeof(Held) * MAXHELD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  E->maxlive = (int)env_i("VT_LIVE", 60);
  E->zeropct = (int)env_i("VT_ZERO", 3);
  E->bigpct = (int)env_i("VT_BIG", 1);
  E->alignbig = (int)env_i("VT_ALIGNBIG", 1);
  E->pow2 = (int)env_i("VT_POW2", 0);
  E->lifo = (int)env_i("VT_LIFO", 0);
  E->only_kind = (int)env_i("VT_KIND", -1);
  E->fixsize = env_i("VT_FIX", -1);
  if (env_i("VT_MAXSZ", 0)) E->maxsz = env_i("VT_MAXSZ", 0);
  signal(SIGILL, on_ill);
  E->baseline();
  size_t base = mapped, maxlive = 0;
  long nstart[3] = {cnt[0], cnt[1], cnt[2]};
  E->mayfail = env_i("VT_MAYFAIL", 0) != 0;
  E->limited = plan_t == 0;
  E->pre = pre; E->post = post;
  long ops = env_i("VT_OPS", 100), every = env_i("VT_EVERY", 50), limit = env_i("VT_LIMIT", 0) * 1024;
  int starve = (int)env_i("VT_STARVE", 0);
  if (env_i("VT_AS", 0)) {
    maps_read();
    size_t used = 0;
    for (int i = 0; i < vt_nmaps; ++i) used += vt_maps[i].b - vt_maps[i].a;
    struct rlimit rl = {used + ((size_t)env_i("VT_AS", 0) << 10), RLIM_INFINITY};
    setrlimit(RLIMIT_AS, &rl);
    E->limited = true;
  }
  watch = 1; own = 0;
  if (env_i("VT_FILL", 0)) {           // many blocks, then no new memory for some time
    for (long i = env_i("VT_FILL", 0); i > 0; --i) { E->do_alloc(K_DMALLOC, 100); if (i % 97 == 0) E->do_check(); }
    E->limited = E->mayfail = true;
    plan_t = 0; plan_k = cnt[0] + 1; plan_n = 1000000000;
    for (int i = 0; i < 300; ++i) E->do_alloc(i % 3 ? K_DMALLOC : K_XC, i % 3 ? 100 : (long)E->r.range(1, 9000));
    E->sweep();
    if (env_i("VT_FILL", 0) & 1) for (int i = 0; i < 60; ++i) E->do_free();
    for (int i = 0; i < 60; ++i) E->step();
    plan_k = 2000000000;
    for (int i = 0; i < 20; ++i) {
      long z = E->nulls;
      E->do_alloc(K_DMALLOC, 100);
      if (E->nulls > z) viol("FAIL", "a request is refused though the system has memory again");
    }
  }
  for (long i = 0; i < ops; ++i) {
    if (starve && heldsum && E->r.pct(starve)) {
      starving = true; starve_to = E->r.pct(20) ? 0 : E->r.below(heldsum); starved = 0;
      long z = E->nulls;
      size_t h = heldsum;
      E->limited = true;
      E->do_alloc(-1, E->r.pct(50) ? (long)E->r.range(1, 400000) : -1);
      starving = false;
      if (starved) ++starvations;
      if (E->nulls > z) viol("LIMIT", "a request is refused though %zu kB of %zu kB of freed memory are kept still", heldsum >> 10, h >> 10);
    }
    E->step();
    if (limit && mapped > (size_t)limit) { viol("LIMIT", "the library maps %zu kB (at start %zu), live blocks %d", mapped >> 10, base >> 10, E->n); break; }
    if (every && i % every == every - 1) {
      E->sweep();
      size_t lv = 0; for (int j = 0; j < E->n; ++j) lv += rup(E->live[j].sz) + PG;
      if (lv > maxlive) maxlive = lv;
    }
  }
  E->mayfail = true;
  E->sweep();
  while (E->n) E->do_free();
  E->sweep();
  watch = 0; own = 1;
  E->stats();
  stat_("syscalls %ld", cnt[0] + cnt[1] + cnt[2]);
  stat_("starvations %ld", starvations); stat_("faults %ld", faults); stat_("heldchecks %ld", heldchecks); stat_("watched %ld", watched);
  char b[200]; snprintf(b, sizeof b, "COUNTS %ld %ld %ld %ld %ld %ld %zu %zu %zu\n", nstart[0], nstart[1], nstart[2], cnt[0], cnt[1], cnt[2], maxmapped >> 10, maxheld >> 10, maxlive >> 10);
  syscall(SYS_write, vt_fd, b, xlen(b));
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
