// The documented hook for debuggers: duma_alloc_return() is called with the address of each block handed out.
// The harness sets a breakpoint on it, as a debugger would, and records what it is called with.
#include "engine.h"
#include <sys/personality.h>
#include <ucontext.h>
static u8 *at; static u8 orig; static volatile int stepping = 0;
static void *rec[64]; static volatile long nrec = 0;
static long hits = 0, seen = 0, skipped = 0;
static u64 sum = 0; static bool bp = true;
static Engine *E;
static char mem[sizeof(Engine)];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }
static void patch(u8 c) { *(volatile u8 *)at = c; }
static void on_trap(int, siginfo_t *, void *v) {
  greg_t *g = ((ucontext_t *)v)->uc_mcontext.gregs;
  if (stepping) { stepping = 0; patch(0xcc); g[REG_EFL] &= ~0x100ll; return; }
  if ((u8 *)g[REG_RIP] != at + 1) { viol("HOOK", "trap at %p", (void *)g[REG_RIP]); _exit(9); }
  if (nrec < 64) rec[nrec] = (void *)g[REG_RDI];
  ++nrec; ++hits;
  patch(orig);
  g[REG_RIP] = (greg_t)at; g[REG_EFL] |= 0x100; stepping = 1;
}
// a block has been obtained
static void got(Engine *e, const Blk &b) {
  sum = mix(sum, (u64)b.p);
  if (!bp) return;
  if (b.p == (char *)_duma_g.null_addr) { ++skipped; nrec = 0; return; }     // not a block of its own
  long n = nrec < 64 ? nrec : 64, m = 0;
  for (long i = 0; i < n; ++i) m += rec[i] == b.p;
  ++seen;
  if (!m) viol("HOOK", "block %p+%zu has not been announced to duma_alloc_return(): %ld other calls, the last with %p", (void *)b.p, b.sz, nrec, n ? rec[n - 1] : 0);
  nrec = 0;
  (void)e;
}
int main(int, char **v) {
  if (env_i("VT_NORAND", 0)) {
    int p = personality(0xffffffff);
    if (!(p & ADDR_NO_RANDOMIZE)) {
      if (personality(p | ADDR_NO_RANDOMIZE) >= 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", v);
      stat_("rand 1");
    } else stat_("norand 1");
  }
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  install_probes();
  vt_context = ctx;
  struct sigaction sa;
  for (size_t i = 0; i < sizeof sa; ++i) ((char *)&sa)[i] = 0;
  sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, 0);
  E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  E->maxlive = (int)env_i("VT_LIVE", 60); E->zeropct = (int)env_i("VT_ZERO", 5); E->bigpct = (int)env_i("VT_BIG", 1); E->dyn = (int)env_i("VT_DYN", 0);
  E->lifo = (int)env_i("VT_LIFO", 0);
  a_free(a_malloc(10, "w.c", 1), "w.c", 2);
  E->baseline();
  at = (u8 *)(uintptr_t)&duma_alloc_return;
  bp = env_i("VT_BP", 1) != 0;
  E->onnew = got;
  if (bp) {
    if (mprotect((void *)rdn((uintptr_t)at), 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC)) { stat_("nobp 1"); stat_("done 1"); _exit(0); }
    orig = *at;
    patch(0xcc);
  }
  long ops = env_i("VT_OPS", 800);
  for (long i = 0; i < ops && vt_viols < 5; ++i) { nrec = 0; E->step(); if (i % 200 == 199) E->sweep(); }
  while (E->n) E->do_free();
  if (bp) patch(orig);
  stat_("hits %ld", hits); stat_("announced %ld", seen); stat_("shared %ld", skipped);
  char b[80]; snprintf(b, sizeof b, "SUM %lx\n", (unsigned long)sum); syscall(SYS_write, vt_fd, b, xlen(b));
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
