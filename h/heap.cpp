// Single-threaded random histories. Settings come from the DUMA_* environment.
#include "engine.h"
static Engine *E;
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }
// every allocation function, all alignments, sizes around every boundary
static void grid(Engine *e) {
  static const int plain[] = {K_MALLOC, K_DMALLOC, K_CALLOC, K_DCALLOC, K_STRDUP, K_DSTRDUP, K_REALLOC0, K_DREALLOC0, K_VALLOC, K_DVALLOC, K_PVALLOC, K_NEW, K_NEWN, K_DNEW, K_DNEWN, K_ARR, K_ARRN, K_DARR, K_DARRN, K_MNEW, K_MARR};
  static const int alig[] = {K_MEMALIGN, K_DMEMALIGN, K_PMEMALIGN, K_DPMEMALIGN, K_ALIGNED, K_XC};
  static const long sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000,
    4064, 4080, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 4104, 4112, 4128, 6000, 8176, 8184, 8190, 8191, 8192, 8193, 8194, 8200, 8208, 12000, 12287, 12288, 12289, 16384, 65535, 65536, 65537,
    1044480, 1044481, 1048575, 1048576, 1048577, 1052672, 1052673};
  int stride = (int)env_i("VT_STRIDE", 1), at = (int)env_i("VT_OFF", 0);
  long ns = sizeof sizes / sizeof *sizes;
  int c = 0;
  for (unsigned ki = 0; ki < sizeof plain / sizeof *plain + sizeof alig / sizeof *alig; ++ki) {
    bool a = ki >= sizeof plain / sizeof *plain;
    int k = a ? alig[ki - sizeof plain / sizeof *plain] : plain[ki];
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
    if (k == K_MALLOC || k == K_CALLOC || k == K_MEMALIGN || k == K_PMEMALIGN || k == K_VALLOC || k == K_ALIGNED || k == K_PVALLOC || k == K_STRDUP || k == K_REALLOC0) continue;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
    if (k >= K_NEW && k <= K_DARRN) continue;
#endif
#if !HAVE_FL
    if (k == K_DNEW || k == K_DNEWN || k == K_DARR || k == K_DARRN) continue;
#endif
    for (int al = 0; al <= (a ? 18 : 0); ++al)
      for (int is = 0; is < ns; ++is)
        for (int pb = 0; pb < (k == K_XC ? 2 : 1); ++pb) {
          if (c++ % stride != at) continue;
          if ((k == K_PMEMALIGN || k == K_DPMEMALIGN) && al < 3) continue;
          e->force_al = a ? 1L << al : -1;
          e->force_pb = pb;
          int i = e->do_alloc(k, sizes[is]);
          if (i >= 0) {
            if (e->c.pb || pb) ; 
            e->probe_guard(e->live[i], (c / stride) % 7 == 0);
            if ((c / stride) % 3) e->do_free(i);
            else if (e->n > 40) e->do_free();
          }
        }
  }
  e->force_al = e->force_pb = -1;
  e->sweep();
}
static void huge(Engine *e) {
  static const size_t sz[] = {(1ul << 30) + 3, (1ul << 31) - 1, 1ul << 31, (1ul << 31) + 5, (1ul << 32) - 4096, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 100, 5ul << 30};
  for (unsigned i = 0; i < sizeof sz / sizeof *sz; ++i)
    for (int k = 0; k < 4; ++k) {
      snprintf(e->what, sizeof e->what, "huge block %zu", sz[i]);
      Blk b; b.zero = b.shared = false; b.sz = sz[i]; b.pb = e->c.pb; b.kind = k == 0 ? K_DMALLOC : k == 1 ? K_DMEMALIGN : k == 2 ? K_XC : K_DREALLOC0;
      b.al = k == 1 ? 64 : e->malloc_align(sz[i]);
      char *p = (char *)(k == 0 ? a_malloc(sz[i], "huge.c", 1) : k == 1 ? a_memalign(64, sz[i], "huge.c", 2) : k == 2 ? a_allocate(0, sz[i], b.pb, -1, EFA_MALLOC, DUMA_FAIL_NULL, "huge.c", 3) : a_realloc(0, sz[i], "huge.c", 4));
      ++e->op; ++e->allocs;
      if (!p) { if (!e->mayfail) stat_("hugerefused 1"); continue; }
      stat_("huge 1");
      b.p = p;
      if ((uintptr_t)p % b.al) viol("ALIGN", "block of %zu bytes at %p is not aligned to %zu", sz[i], p, b.al);
      for (size_t o = 0; o < sz[i]; o += (1ul << 28) - 4096) if (!alive(p + o)) { viol(b.pb ? "UNDER" : "OVER", "byte %zu inside %zu-byte block is inaccessible", o, sz[i]); break; }
      if (!alive(p + sz[i] - 1)) viol(b.pb ? "UNDER" : "OVER", "last byte of %zu-byte block is inaccessible", sz[i]);
      e->probe_guard(b, true);
      if (!b.pb && rup((uintptr_t)p + sz[i]) - ((uintptr_t)p + sz[i]) >= b.al) viol("OVER", "%zu bytes behind %zu-byte block are accessible", rup((uintptr_t)p + sz[i]) - ((uintptr_t)p + sz[i]), sz[i]);
      if (a_usable(p) != sz[i]) viol("CONTENT", "usable size of %zu-byte block is %zu", sz[i], a_usable(p));
      a_free(p, "huge.c", 9);
      for (size_t o = 0; o < sz[i]; o += (1ul << 29) - 4096) if (!dead(p + o) && !e->in_base((uintptr_t)p + o)) { viol("UAF", "byte %zu of freed %zu-byte block is accessible", o, sz[i]); break; }
      if (!dead(p + sz[i] - 1) && !e->in_base((uintptr_t)p + sz[i] - 1)) viol("UAF", "last byte of freed %zu-byte block is accessible", sz[i]);
      ++e->frees;
    }
  e->sweep();
}
// blocks of any size up to some GB come and go: what is mapped stays near what lives and what may be protected
static long vmapped() {
  char b[200]; int f = open("/proc/self/statm", O_RDONLY); long n = 0;
  ssize_t k = read(f, b, sizeof b - 1); if (k > 0) { b[k] = 0; n = strtol(b, 0, 10); } close(f); return n * 4;
}
static void huge_churn(Engine *e, long cycles) {
  static const int bits[] = {12, 16, 18, 20, 22, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33};
  long pf = e->c.pf, base = vmapped(), lim = env_i("VT_AS", 0), mx = env_i("DUMA_MAX_ALLOC", -1);
  struct { char *p; size_t sz; } lv[3] = {{0, 0}, {0, 0}, {0, 0}};
  for (long i = 0; i < cycles; ++i) {
    int k = (int)e->r.below(3);
    if (lv[k].p) {
      snprintf(e->what, sizeof e->what, "cycle %ld: release of %zu bytes", i, lv[k].sz);
      a_free(lv[k].p, "huge.c", 31); lv[k].p = 0; lv[k].sz = 0;
      ++e->op; ++e->frees;
    }
    if (e->r.pct(70)) {
      size_t hi = (size_t)1 << bits[e->r.below(sizeof bits / sizeof *bits)];
      if (lim && hi > ((size_t)lim << 10) / 8) hi = ((size_t)lim << 10) / 8;
      size_t sz = hi / 2 + e->r.range(1, hi / 2);
      if (mx > 0) sz = e->r.pct(50) ? e->r.range(1 << 20, 4 << 20) : e->r.range(1 << 20, (u64)mx << 8);    // at least a piece of its own, at most a quarter
      int f = (int)e->r.below(4);
      snprintf(e->what, sizeof e->what, "cycle %ld: allocation of %zu bytes, function %d", i, sz, f);
      char *p = (char *)(f == 0 ? a_malloc(sz, "huge.c", 32) : f == 1 ? a_memalign(4096, sz, "huge.c", 33) : f == 2 ? a_allocate(0, sz, e->c.pb, -1, EFA_MALLOC, DUMA_FAIL_NULL, "huge.c", 34) : a_realloc(0, sz, "huge.c", 35));
      ++e->op; ++e->allocs;
      if (!p) { viol("FAIL", "a block of %zu bytes was refused after %ld cycles, %ld kB are mapped", sz, i, vmapped() - base); return; }
      p[0] = p[sz - 1] = 1;
      lv[k].p = p; lv[k].sz = sz;
      situation(mix(mix(hi, f), mix((u64)pf, lim)));
    }
    if (pf >= 0) {
      long live = 0, now = vmapped() - base;
      for (int j = 0; j < 3; ++j) if (lv[j].p) live += (long)(lv[j].sz >> 10) + 12;
      // unused ends of the pieces the system gave, the table
      if (now > live + pf + 8192) { viol("LIMIT", "%ld kB are mapped for %ld kB in live blocks and at most %ld kB protected ones", now, live, pf); return; }
      ++e->checks; stat_("heldchecks 1");
    }
    if (mx > 0) {
      long now = vmapped() - base;
      if (now > mx + 8192) { viol("LIMIT", "%ld kB are mapped with DUMA_MAX_ALLOC=%ld, in live blocks that need less", now, mx); return; }
      ++e->checks; stat_("heldchecks 1");
    }
  }
  for (int j = 0; j < 3; ++j) if (lv[j].p) a_free(lv[j].p, "huge.c", 36);
}
// alignments beyond 32 bits: the slack up to the next multiple is memory, so little is left at a time
static void huge_align(Engine *e, unsigned bit, int k) {
  size_t al = (size_t)1 << bit;
  static const size_t sz[] = {1, 4095, 4096, 70001};
  Blk b; b.zero = b.shared = false; b.sz = sz[e->r.below(4)]; b.pb = e->c.pb; b.kind = k == 0 ? K_DMEMALIGN : k == 1 ? K_DPMEMALIGN : K_XC; b.al = al;
  snprintf(e->what, sizeof e->what, "%s of %zu bytes aligned to %zu", kind_name(b.kind), b.sz, al);
  void *p = 0;
  // where the block will lie: in which half of an aligned range
  int half = (int)env_i("VT_HALF", -1);
  for (int t = 0; half >= 0 && t < 3; ++t) {
    char *m = (char *)mmap(0, al + 16 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) break;
    munmap(m, al + 16 * PG);
    if ((int)(((uintptr_t)m >> (bit - 1)) & 1) == half) break;
    mmap(0, al / 2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  if (k == 0) p = a_memalign(al, b.sz, "huge.c", 21);
  else if (k == 1) { if (a_posix_memalign(&p, al, b.sz, "huge.c", 22)) p = 0; }
  else { b.pb = !b.pb; p = a_allocate(al, b.sz, b.pb, -1, EFA_MALLOC, DUMA_FAIL_NULL, "huge.c", 23); }
  ++e->op; ++e->allocs;
  if (!p) { stat_("hugerefused 1"); return; }
  b.p = (char *)p;
  if ((uintptr_t)p % al) viol("ALIGN", "%s of %zu bytes at %p is not aligned to %zu", kind_name(b.kind), b.sz, p, al);
  for (size_t o = 0; o < b.sz; o += 4096) if (!alive(b.p + o)) viol(b.pb ? "UNDER" : "OVER", "byte %zu is inaccessible", o);
  if (!alive(b.p + b.sz - 1)) viol(b.pb ? "UNDER" : "OVER", "last byte is inaccessible");
  e->probe_guard(b, true);
  if (a_usable(p) != b.sz) viol("CONTENT", "usable size of %zu-byte block is %zu", b.sz, a_usable(p));
  a_free(p, "huge.c", 24);
  ++e->frees;
  stat_("huge 1");
  situation(mix(404, mix(bit, k)));
}
// contents beyond 4 GB: needs that much memory
static void huge_contents(Engine *e, int which) {
  const size_t N = ((size_t)1 << 32) + 5000;
  static const size_t at[] = {0, 4095, (1ul << 31) - 1, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 3999};
  for (int k = 0; k < 2; ++k) if (k == which) {
    size_t to = k ? N - 1000 : N + 9000;
    snprintf(e->what, sizeof e->what, "realloc of %zu bytes to %zu", N, to);
    char *p = (char *)a_malloc(N, "huge.c", 11);
    if (!p) { stat_("hugerefused 1"); continue; }
    for (size_t i = 0; i < sizeof at / sizeof *at; ++i) p[at[i]] = (char)(i + 65);
    char *q = (char *)a_realloc(p, to, "huge.c", 12);
    if (!q) { stat_("hugerefused 1"); a_free(p, "huge.c", 13); continue; }
    for (size_t i = 0; i < sizeof at / sizeof *at; ++i) if (q[at[i]] != (char)(i + 65)) viol("CONTENT", "realloc of %zu bytes to %zu: byte %zu is %d, not %d", N, to, at[i], q[at[i]], (int)i + 65);
    if (a_usable(q) != to) viol("CONTENT", "usable size of %zu-byte block is %zu", to, a_usable(q));
    a_free(q, "huge.c", 14);
    stat_("huge 1");
  }
  if (which == 3) {
    snprintf(e->what, sizeof e->what, "malloc of %zu bytes filled", N);
    char *p = (char *)a_malloc(N, "huge.c", 17);
    if (!p) { stat_("hugerefused 1"); return; }
    for (size_t i = 0; i < N; i += i < N - 9000 ? 4093 : 1) if ((u8)p[i] != (u8)e->c.fill) { viol("CONTENT", "malloc of %zu bytes: byte %zu is %d, not %ld", N, i, (u8)p[i], e->c.fill); break; }
    a_free(p, "huge.c", 18);
    stat_("huge 1");
  }
  if (which == 4) {       // a string of that length: aliased pages
    const size_t W = 64 << 20, L = N - 1;
    int fd = memfd_create("s", 0);
    if (ftruncate(fd, W)) { stat_("hugerefused 1"); return; }
    char *s = (char *)mmap(0, N + W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *end = s + (N & ~(W - 1));
    if (s == MAP_FAILED) { stat_("hugerefused 1"); return; }
    for (char *p = s; p < end; p += W) if (mmap(p, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { stat_("hugerefused 1"); return; }
    if (mmap(end, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { stat_("hugerefused 1"); return; }
    close(fd);
    for (size_t i = 0; i < W; ++i) s[i] = (char)(i % 251 + 1);
    for (char *p = end; p < s + L; ++p) *p = (char)('A' + (p - end) % 26);
    snprintf(e->what, sizeof e->what, "strdup of %zu characters", L);
    char *p = a_strdup(s, "huge.c", 19);
    if (!p) { stat_("hugerefused 1"); return; }
    if (a_usable(p) != N) viol("CONTENT", "usable size of the copy of a string of %zu characters is %zu", L, a_usable(p));
    for (size_t i = 0; i < N; i += i < N - 9000 ? 4093 : 1) if (p[i] != s[i]) { viol("CONTENT", "strdup of %zu characters: byte %zu is %d, not %d", L, i, p[i], s[i]); break; }
    a_free(p, "huge.c", 20);
    munmap(s, N + W);
    stat_("huge 1");
  }
  if (which != 2) return;
  snprintf(e->what, sizeof e->what, "calloc(65537, 65536)");
  char *p = (char *)a_calloc(65537, 65536, "huge.c", 15);
  if (!p) { stat_("hugerefused 1"); return; }
  if (a_usable(p) != 65537ul * 65536) viol("CONTENT", "usable size of calloc(65537, 65536) is %zu", a_usable(p));
  for (size_t i = 0; i < 65537ul * 65536; i += 8191) if (p[i]) { viol("CONTENT", "calloc(65537, 65536): byte %zu is %d", i, p[i]); break; }
  a_free(p, "huge.c", 16);
  stat_("huge 1");
}
// a long life behind us: that many blocks freed, each has its entry in the table
static void churn(long n) {
  char *keep[64] = {0};
  for (long i = 0; i < n; ++i) {
    int k = (int)(i & 63);
    if (keep[k]) a_free(keep[k], "churn.c", 1);
    keep[k] = (char *)a_malloc(PG, "churn.c", 2);     // not touched: the system can join the mappings
  }
  for (int k = 0; k < 64; ++k) if (keep[k]) a_free(keep[k], "churn.c", 3);
}
// blocks of big alignments, of which only a part stays protected: no later block gets into their way
static void alchurn(Engine *e, long n) {
  struct L { char *p; size_t sz; int c; } live[32]; memset(live, 0, sizeof live);
  for (long i = 0; i < n; ++i) {
    int k = (int)e->r.below(32);
    L &b = live[k];
    if (b.p) {
      snprintf(e->what, sizeof e->what, "cycle %ld: release of %p+%zu", i, b.p, b.sz);
      if (b.p[0] != (char)b.c || b.p[b.sz - 1] != (char)b.c) viol("CONTENT", "block %p+%zu has lost its contents", b.p, b.sz);
      a_free(b.p, "al.c", 1); b.p = 0;
    }
    size_t al = (size_t)1 << e->r.range(0, 20), sz = e->r.pct(90) ? e->r.range(1, 40000) : e->r.range(1, 3 << 20);
    snprintf(e->what, sizeof e->what, "cycle %ld: allocation of %zu, aligned to %zu", i, sz, al);
    char *p = (char *)(e->r.pct(30) ? a_malloc(sz, "al.c", 2) : a_memalign(al, sz, "al.c", 2));
    if (!p) { viol("FAIL", "memalign(%zu, %zu) returned NULL", al, sz); return; }
    for (int j = 0; j < 32; ++j) if (live[j].p && p < live[j].p + live[j].sz && live[j].p < p + sz) viol("DISJOINT", "block %p+%zu overlaps %p+%zu", p, sz, live[j].p, live[j].sz);
    b.p = p; b.sz = sz; b.c = (int)(i & 127) + 1;
    p[0] = p[sz - 1] = (char)b.c;
    ++e->op; ++e->allocs;
    if (vt_viols > 5) return;
  }
  for (int k = 0; k < 32; ++k) if (live[k].p) a_free(live[k].p, "al.c", 3);
}
// protection does not wear off: after that many blocks what is kept for freed ones still makes use of the limits
enum { PSET = 1 << 21 };
static uintptr_t *pset; static long npset = 0;
static void padd(uintptr_t pg) {
  size_t h = (size_t)(mix((u64)pg, 77) & (PSET - 1));
  while (pset[h] && pset[h] != pg) h = (h + 1) & (PSET - 1);
  if (!pset[h]) { if (npset > PSET / 2) return; pset[h] = pg; ++npset; }
}
static void keep(Engine *e, long cycles) {
  struct L { char *p; size_t sz; } live[24]; memset(live, 0, sizeof live);
  long pf = env_i("DUMA_PROTECT_FREE", -1), mx = env_i("DUMA_MAX_ALLOC", -1), freed = 0;
  int maxpg = 1 << e->r.below(5);
  bool pb = e->c.pb, bigs = e->r.pct(50);
  // a big block gives way as a whole, however little room is needed: what can be kept counts from then on
  struct Held { uintptr_t a; size_t sz; } held[256]; int nheld = 0;
  auto gave_way = [&] {
    for (int k = 0; k < nheld; ++k) {
      unsigned char v[1];
      if (!mincore((void *)rdn(held[k].a + held[k].sz / 2), PG, v) && !mincore((void *)(held[k].a + held[k].sz - PG), PG, v)) continue;
      held[k--] = held[--nheld];
      freed = 0;
    }
  };
  for (long i = 0; i < cycles; ++i) {
    L &b = live[e->r.below(24)];
    if (b.p) {
      snprintf(e->what, sizeof e->what, "cycle %ld: release of %zu bytes", i, b.sz);
      char *lo = b.p, *hi = b.p + b.sz;
      uintptr_t lo_ = rdn((uintptr_t)lo), hi_ = rup((uintptr_t)hi);
      a_free(b.p, "keep.c", 1);
      uintptr_t a = rdn((uintptr_t)lo), z = rup((uintptr_t)hi);
      if (pb) a -= PG; else z += PG;
      for (; a < z; a += PG) { padd(a); freed += 4; }
      if (b.sz >> 20) { freed = 0; if (nheld < 256) held[nheld++] = {lo_, hi_ - lo_}; }
      b.p = 0;
      gave_way();
    }
    size_t sz = e->r.range(1, maxpg * PG);
    if (bigs && i % (cycles / 6) < cycles / 24 && e->r.pct(3)) sz = e->r.range(1, 16) << 20;     // all that is kept makes room for it
    snprintf(e->what, sizeof e->what, "cycle %ld: allocation of %zu bytes", i, sz);
    char *p = (char *)a_malloc(sz, "keep.c", 2);
    gave_way();
    if (sz >> 20) {
      freed = 0;
      if (!p) continue;
      if (mx > 0) {                // protected itself from now on, for as long as others make room
        uintptr_t lo = rdn((uintptr_t)p), hi = rup((uintptr_t)p + sz);
        a_free(p, "keep.c", 4);
        for (uintptr_t a = pb ? lo - PG : lo; a < (pb ? hi : hi + PG); a += PG) padd(a);
        if (nheld < 256) held[nheld++] = {lo, hi - lo};
        continue;
      }
    }
    if (!p) { viol("FAIL", "malloc(%zu) returned NULL", sz); return; }
    b.p = p; b.sz = sz; p[0] = 1; p[sz - 1] = 2;
    ++e->op; ++e->allocs;
    if (i % (cycles / 6) == cycles / 6 - 1) {
      maps_read();
      long kept = 0, lv = 0;
      for (int k = 0; k < 24; ++k) if (live[k].p) lv += (long)((rup((uintptr_t)live[k].p + live[k].sz) - rdn((uintptr_t)live[k].p) + PG) >> 10);
      for (size_t h = 0; h < PSET; ++h) {
        uintptr_t a = pset[h];
        if (!a) continue;
        const Map *m = maps_at(a);
        if (!m || m->r || m->w || m->x) continue;
        bool mine = true;
        for (int k = 0; k < 24 && mine; ++k) if (live[k].p && a + PG >= rdn((uintptr_t)live[k].p) && a <= rup((uintptr_t)live[k].p + live[k].sz)) mine = false;
        if (mine) kept += 4;
      }
      long want = freed;
      if (pf >= 0 && pf < want) want = pf;
      long gone = bigs ? 6000 : 2500;                 // unused ends of the pieces the system gave
      if (mx > 0 && mx - lv - gone < want) want = mx - lv - gone;
      if (bigs) want -= 2000;
      want -= 300 + 2 * (maxpg + 1) * 4 + 24 * 16;     // pages beside live blocks are not counted
      if (kept < want) { viol("KEEP", "%ld kB of %ld kB freed so far are still protected, %ld kB could be (DUMA_PROTECT_FREE=%ld, DUMA_MAX_ALLOC=%ld, live %ld kB)", kept, freed, want, pf, mx, lv); return; }
      ++e->checks;
      stat_("keptchecks 1");
      situation(mix(mix((u64)kept >> 8, maxpg), mix(pb, mx > 0)));
    }
  }
  for (int k = 0; k < 24; ++k) if (live[k].p) a_free(live[k].p, "keep.c", 3);
}
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  static char mem[sizeof(Engine)];
  a_free(a_malloc(10, "w.c", 1), "w.c", 2);
  Engine *e = E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  e->maxlive = (int)env_i("VT_LIVE", 150);
  e->zeropct = (int)env_i("VT_ZERO", 3);
  e->bigpct = (int)env_i("VT_BIG", 1);
  e->alignbig = (int)env_i("VT_ALIGNBIG", 1);
  e->dyn = (int)env_i("VT_DYN", 0);
  e->cpp = (int)env_i("VT_CPP", 1);
  e->refuse = (int)env_i("VT_REFUSE", 0);
  e->lifo = (int)env_i("VT_LIFO", 0);
  e->only_kind = (int)env_i("VT_KIND", -1);
  e->fixsize = env_i("VT_FIX", -1);
  if (env_i("VT_MAXSZ", 0)) e->maxsz = env_i("VT_MAXSZ", 0);
  if (env_i("VT_ALCHURN", 0)) alchurn(e, env_i("VT_ALCHURN", 0));
  if (env_i("VT_CHURN", 0)) churn(env_i("VT_CHURN", 0));
  if (env_i("VT_KEEP", 0))
    pset = (uintptr_t *)mmap(0, PSET * sizeof *pset, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  e->baseline();
  // before anything else the table has to be closed already
  e->sweep();
  if (env_i("VT_AS", 0)) {              // address-space limit in kB above what is used now
    maps_read();
    size_t used = 0;
    for (int i = 0; i < vt_nmaps; ++i) used += vt_maps[i].b - vt_maps[i].a;
    struct rlimit rl = {used + ((size_t)env_i("VT_AS", 0) << 10), RLIM_INFINITY};
    setrlimit(RLIMIT_AS, &rl);
    e->limited = true;
    e->mayfail = env_i("VT_MAYFAIL", 1) != 0;
  }
  if (env_i("VT_KEEP", 0)) keep(e, env_i("VT_KEEP", 0));
  if (env_i("VT_GRID", 0)) grid(e);
  if (env_i("VT_HUGE", 0) == 1) huge(e);
  if (env_i("VT_HUGE", 0) == 9) huge_align(e, (unsigned)env_i("VT_BIT", 33), (int)env_i("VT_KIND", 0));
  else if (env_i("VT_HUGE", 0) == 10) huge_churn(e, env_i("VT_CYCLES", 300));
  else if (env_i("VT_HUGE", 0) >= 2) huge_contents(e, (int)env_i("VT_HUGE", 0) - 2);
  e->run(env_i("VT_OPS", 3000), env_i("VT_EVERY", 250));
  e->finish();
  e->stats();
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
