// Random heap histories against a shadow model of what the documentation promises.
#pragma once
#include "vh.h"
#include "api.h"

enum Fam { F_C, F_NEW, F_ARR, F_MNEW, F_MARR };
enum Kind {
  K_MALLOC, K_DMALLOC, K_CALLOC, K_DCALLOC, K_MEMALIGN, K_DMEMALIGN, K_PMEMALIGN, K_DPMEMALIGN,
  K_VALLOC, K_DVALLOC, K_ALIGNED, K_PVALLOC, K_STRDUP, K_DSTRDUP, K_REALLOC0, K_DREALLOC0,
  K_NEW, K_NEWN, K_DNEW, K_DNEWN, K_ARR, K_ARRN, K_DARR, K_DARRN, K_MNEW, K_MARR, K_XC, K_N,
  K_REALLOC = 40, K_DREALLOC = 41
};
static const char *kind_name(int k) {
  static const char *n[] = {"malloc", "_duma_malloc", "calloc", "_duma_calloc", "memalign", "_duma_memalign",
    "posix_memalign", "_duma_posix_memalign", "valloc", "_duma_valloc", "aligned_alloc", "pvalloc", "strdup",
    "_duma_strdup", "realloc(0)", "_duma_realloc(0)", "new", "new nothrow", "new(file,line)",
    "new(nothrow,file,line)", "new[]", "new[] nothrow", "new[](file,line)", "new[](nothrow,file,line)",
    "member new", "member new[]", "_duma_allocate"};
  return k < K_N ? n[k] : k == K_REALLOC ? "realloc" : "_duma_realloc";
}
// name of the allocation function in DUMA's messages
static const char *kind_type(int k) {
  switch (k) {
  case K_CALLOC: case K_DCALLOC: return "calloc()";
  case K_MEMALIGN: case K_DMEMALIGN: case K_ALIGNED: return "memalign()";
  case K_PMEMALIGN: case K_DPMEMALIGN: return "posix_memalign()";
  case K_VALLOC: case K_DVALLOC: case K_PVALLOC: return "valloc()";
  case K_STRDUP: case K_DSTRDUP: return "strdup()";
  case K_REALLOC0: case K_DREALLOC0: case K_REALLOC: case K_DREALLOC: return "realloc()";
  case K_NEW: case K_NEWN: case K_DNEW: case K_DNEWN: return "scalar new";
  case K_ARR: case K_ARRN: case K_DARR: case K_DARRN: return "vector new[]";
  case K_MNEW: return "member scalar new";
  case K_MARR: return "member vector new[]";
  default: return "malloc()";
  }
}
static bool kind_has_fl(int k) {
  switch (k) {
  case K_DMALLOC: case K_DCALLOC: case K_DMEMALIGN: case K_DPMEMALIGN: case K_DVALLOC: case K_DSTRDUP:
  case K_DREALLOC0: case K_DREALLOC: case K_DNEW: case K_DNEWN: case K_DARR: case K_DARRN: case K_MNEW:
  case K_MARR: case K_XC: return true;
  default: return false;
  }
}
static Fam kind_fam(int k) {
  if (k >= K_NEW && k <= K_DNEWN) return F_NEW;
  if (k >= K_ARR && k <= K_DARRN) return F_ARR;
  if (k == K_MNEW) return F_MNEW;
  if (k == K_MARR) return F_MARR;
  return F_C;
}
static const char *const FILES[] = {"alpha.c", "dir/beta.cpp", "a very long path/with blanks/gamma.cxx", "d.c", "src/epsilon.c"};
enum { NFILES = 5 };

struct Blk {
  char *p; size_t sz; size_t al;  // al: alignment the block has to have
  int kind; u8 fam; bool pb; bool zero; bool shared;
  u64 pat; const char *file; int line; u8 pin; u8 sl;   // sl: value of the slack around it
};
struct Cfg {
  long align, pb, fill, slack, pf, m0, n0, check_freq, failexit, maxalloc;
  void from_env() {
    align = env_i("DUMA_ALIGNMENT", DUMA_MIN_ALIGNMENT); if (!align) align = 1;
    pb = env_i("DUMA_PROTECT_BELOW", 0) != 0;
    fill = env_i("DUMA_FILL", 255); if (fill != -1) fill &= 255;
    slack = env_i("DUMA_SLACKFILL", 170) & 255;
    pf = env_i("DUMA_PROTECT_FREE", -1);
    m0 = env_i("DUMA_MALLOC_0_STRATEGY", 3); if (m0 < 0 || m0 > 3) m0 = 3;
    n0 = env_i("DUMA_NEW_0_STRATEGY", 3); if (n0 < 2 || n0 > 3) n0 = 3;
    check_freq = env_i("DUMA_CHECK_FREQ", 0);
    maxalloc = env_i("DUMA_MAX_ALLOC", -1);
    failexit = env_i("DUMA_MALLOC_FAILEXIT", 1);
  }
};
struct Event { bool alloc; size_t size; const char *file; int line; const char *afile; int aline; };

struct Engine {
  Cfg c;
  Rng r;
  int maxlive = 200, bigpct = 1, zeropct = 3, alignbig = 1, cpp = 1, solo = 1, dyn = 0, lifo = 0;
  size_t maxsz = 300000;
  int only_kind = -1; long fixsize = -1; long force_al = -1; int force_pb = -1;
  Blk *live; int n = 0;
  struct Fr { uintptr_t p; size_t sz; } *fr; long nfr = 0; enum { MAXFR = 400000 };
  Map *base = 0; int nbase = 0;
  Map *iv = 0;
  long op = 0, allocs = 0, frees = 0, reallocs = 0, probes = 0, sweeps = 0, sweptpages = 0, checks = 0, lastdump = 0, nulls = 0, refusals = 0;
  bool limited = false;        // a limit of the system has been hit
  int refuse = 0;
  size_t freedkb = 0;          // upper estimate of the memory freed so far
  void *sharedz = 0;           // the shared zero-size address once seen
  char what[200];
  void (*ev)(Engine *, const Event &) = 0;
  void (*onnew)(Engine *, const Blk &) = 0;       // has been obtained
  void (*pre)(Engine *, const Blk &) = 0;         // about to be released
  void (*post)(Engine *, bool released) = 0;
  char *busy = 0;              // block a running call may release
  int maxline = 30000;
  int pow2 = 0;                // sizes that divide the allocator's chunks
  long allocs_c = 0;
  bool mayfail = false;        // requests may be refused (fault injection, memory limits)

  explicit Engine(u64 seed, int cap = 12000) : r(seed) {
    c.from_env();
    live = (Blk *)mmap(0, sizeof(Blk) * cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    fr = (Fr *)mmap(0, sizeof(Fr) * MAXFR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    iv = (Map *)mmap(0, sizeof(Map) * (cap + 8), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    what[0] = 0;
  }
  // remembers which memory of the process is accessible before the history starts
  void baseline() {
    if (!vt_maps) maps_init();
    base = (Map *)mmap(0, sizeof(Map) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    maps_read();
    nbase = 0;
    for (int i = 0; i < vt_nmaps && nbase < 4096; ++i)
      if (vt_maps[i].r || vt_maps[i].w || vt_maps[i].x) base[nbase++] = vt_maps[i];
  }
  size_t malloc_align(size_t sz) const {
    size_t a = (size_t)c.align;
    if (a == 0) a = 1;
    if (sz < a) { a = 1; while (a * 2 <= sz) a *= 2; }
    return a;
  }
  size_t pick_size() {
    if (fixsize >= 0) return (size_t)fixsize;
    if (r.pct(zeropct)) return 0;
    if (pow2) {          // with their guard page 2, 4, ... pages
      size_t pages = ((size_t)1 << r.range(1, pow2)) - 1;
      return r.pct(30) ? pages * PG : (pages - 1) * PG + r.range(1, PG);
    }
    u64 k = r.below(100);
    if (k < 30) return r.range(1, 40);
    if (k < 50) return r.range(1, 600);
    if (k < 68) { size_t b = PG * r.range(1, 4); long d = (long)r.below(41) - 20; return b + d; }
    if (k < 92) return r.range(1, 3 * PG);
    if ((int)r.below(100) < bigpct * 12) return r.range(200000, 3u << 20);
    return r.range(1, maxsz);
  }
  u8 patb(const Blk &b, size_t i) const { return (u8)(b.pat + i * 131 + (i >> 8) * 29); }
  static size_t step_of(size_t i, size_t sz) { return (sz > 40000 && i > 5000 && i + 5000 < sz) ? 509 : 1; }
  void write_pat(Blk &b) {
    b.pat = r.next();
    for (size_t i = 0; i < b.sz; i += step_of(i, b.sz)) b.p[i] = (char)patb(b, i);
  }
  bool check_pat(const Blk &b, const char *p, size_t upto, const char *when) {
    for (size_t i = 0; i < b.sz && i < upto; i += step_of(i, b.sz))
      if ((u8)p[i] != patb(b, i)) {
        viol("CONTENT", "byte %zu of %zu-byte block from %s changed (%s)", i, b.sz, kind_name(b.kind), when);
        return false;
      }
    return true;
  }
  // accessible bytes around the block that belong to it
  void slack(const Blk &b, uintptr_t &lo, uintptr_t &hi) const {
    uintptr_t p = (uintptr_t)b.p;
    lo = b.pb ? p : rdn(p);
    hi = rup(p + b.sz);
  }
  bool covered(uintptr_t a, const char *except = 0) const {
    for (int i = 0; i < n; ++i) {
      if (live[i].zero || (except && live[i].p == except)) continue;
      uintptr_t lo = rdn((uintptr_t)live[i].p), hi = rup((uintptr_t)live[i].p + live[i].sz);
      if (live[i].al > PG) { lo -= live[i].pb ? 0 : live[i].al; hi += live[i].pb ? live[i].al : 0; }
      if (lo <= a && a < hi) return true;
    }
    return false;
  }
  void probe_guard(const Blk &b, bool full) {
    uintptr_t p = (uintptr_t)b.p;
    probes += 4;
    if (b.zero) {
      if (!dead(b.p)) viol("ZERO", "zero-size block of %s at %p is accessible", kind_name(b.kind), b.p);
      uintptr_t pg = rdn(p);
      if (!b.shared || full)
        if (!dead((char *)pg) || !dead((char *)pg + PG - 1) || !dead(b.p - 1) || !dead(b.p + 1))
          viol("ZERO", "page of zero-size block at %p is accessible", b.p);
      return;
    }
    if (b.pb) {
      uintptr_t g = p - PG;
      if (!dead((char *)p - 1) || !dead((char *)g) || !dead((char *)g + 1 + r.below(PG - 2)))
        viol("UNDER", "byte below %zu-byte block %p from %s (align %zu) is accessible", b.sz, b.p, kind_name(b.kind), b.al);
      if (full) for (uintptr_t q = g; q < p; q += 64) if (!dead((char *)q)) { viol("UNDER", "guard byte at %ld of block %p is accessible", (long)(q - p), b.p); break; }
    } else {
      uintptr_t end = p + b.sz, g = rup(end);
      if (!dead((char *)g) || !dead((char *)g + PG - 1) || !dead((char *)g + 1 + r.below(PG - 2)))
        viol("OVER", "page behind %zu-byte block %p from %s (align %zu) is accessible", b.sz, b.p, kind_name(b.kind), b.al);
      if (full) for (uintptr_t q = g; q < g + PG; q += 64) if (!dead((char *)q)) { viol("OVER", "guard byte at +%ld of block %p is accessible", (long)(q - end), b.p); break; }
    }
  }
  void probe_inside(const Blk &b, bool full) {
    if (b.zero) return;
    size_t step = (b.sz > 20 * PG && !full) ? PG * 13 : PG;
    const char *tag = b.pb ? "UNDER" : "OVER";
    for (size_t i = 0; i < b.sz; i += step) { ++probes; if (!alive(b.p + i)) { viol(tag, "byte %zu inside %zu-byte block %p from %s is inaccessible", i, b.sz, b.p, kind_name(b.kind)); return; } }
    if (!alive(b.p + b.sz - 1)) viol(tag, "last byte of %zu-byte block %p from %s is inaccessible", b.sz, b.p, kind_name(b.kind));
  }
  void check_slackfill(const Blk &b) {
    if (b.zero) return;
    uintptr_t lo, hi; slack(b, lo, hi);
    for (uintptr_t q = lo; q < (uintptr_t)b.p; ++q) if (*(u8 *)q != b.sl) { viol("SLACK", "slack byte %ld of block %p is %02x, not %02x", (long)(q - (uintptr_t)b.p), b.p, *(u8 *)q, b.sl); return; }
    for (uintptr_t q = (uintptr_t)b.p + b.sz; q < hi; ++q) if (*(u8 *)q != b.sl) { viol("SLACK", "slack byte +%ld of block %p is %02x, not %02x", (long)(q - (uintptr_t)b.p - b.sz), b.p, *(u8 *)q, b.sl); return; }
  }
  void verify_new(Blk &b, int fill, const char *str, const Blk *src, size_t keep) {
    if (onnew) onnew(this, b);
    uintptr_t p = (uintptr_t)b.p;
    if (b.zero) {
      if (b.shared) {
        if (sharedz && sharedz != b.p) viol("ZERO", "shared zero-size address changed from %p to %p", sharedz, b.p);
        sharedz = b.p;
      } else {
        if (b.p == sharedz) viol("ZERO", "zero-size block is not distinct");
        if (solo) for (int i = 0; i < n; ++i) if (live[i].p && rdn((uintptr_t)live[i].p) == rdn(p)) viol("ZERO", "zero-size block %p shares a page with %p", b.p, live[i].p);
      }
      probe_guard(b, false);
      if (a_usable(b.p) != 0) viol("CONTENT", "zero-size block has usable size");
      ++checks;
      return;
    }
    if (p % b.al) viol("ALIGN", "%s(%zu) = %p is not aligned to %zu", kind_name(b.kind), b.sz, b.p, b.al);
    if (b.pb) { if (p % PG) viol("UNDER", "%s(%zu) = %p does not start a page with protect-below", kind_name(b.kind), b.sz, b.p); }
    else {
      size_t gap = rup(p + b.sz) - (p + b.sz), unit = b.al < PG ? b.al : PG;
      if (gap >= unit) viol("OVER", "%s(%zu, align %zu) = %p leaves %zu accessible bytes behind", kind_name(b.kind), b.sz, b.al, b.p, gap);
    }
    probe_guard(b, r.pct(2));
    probe_inside(b, false);
    if (solo) {
      uintptr_t lo = rdn(p), hi = rup(p + b.sz);
      for (int i = 0; i < n; ++i) {
        if (live[i].zero || !live[i].p) continue;
        uintptr_t l2 = rdn((uintptr_t)live[i].p), h2 = rup((uintptr_t)live[i].p + live[i].sz);
        if (lo < h2 && l2 < hi) {
          viol("DISJOINT", "new block %p+%zu shares a page with live block %p+%zu", b.p, b.sz, live[i].p, live[i].sz);
          break;
        }
      }
      bool strict = reissue_forbidden();
      if (strict && !mayfail)
        for (long i = 0; i < nfr; ++i)
          if (lo < rup(fr[i].p + fr[i].sz) && rdn(fr[i].p) < hi) {
            viol("UAF", "memory of freed block %p+%zu reissued as %p+%zu", (void *)fr[i].p, fr[i].sz, b.p, b.sz);
            break;
          }
    }
    // contents
    if (str) { for (size_t i = 0; i < b.sz; ++i) if (b.p[i] != str[i]) { viol("CONTENT", "strdup differs at %zu of %zu", i, b.sz); break; } }
    else if (src) check_pat(*src, b.p, keep, "after realloc");
    else if (fill >= 0)
      for (size_t i = 0; i < b.sz; i += step_of(i, b.sz)) if ((u8)b.p[i] != (u8)fill) { viol("CONTENT", "byte %zu of new %zu-byte block from %s is %02x instead of %02x", i, b.sz, kind_name(b.kind), (u8)b.p[i], fill); break; }
    if (!alive(b.p)) return;
    check_slackfill(b);
    ++checks;
    size_t us = a_usable(b.p);
    if (us != b.sz) viol("CONTENT", "usable size of %zu-byte block is %zu", b.sz, us);
    situation(mix(mix(b.kind, b.pb), mix(b.al, b.sz < 64 ? b.sz : b.sz < 3 * PG ? 64 + (b.sz % PG < 24 ? b.sz % PG : b.sz % PG > PG - 24 ? b.sz % PG : 999) : 5000 + (b.sz >> 18))));
  }
  // freed memory has to stay reserved: unlimited, or the limit cannot have been reached yet.
  // Outgrown tables of the allocator count as freed memory, too.
  bool reissue_forbidden() const {
    if (c.maxalloc > 0 || limited) return false;
    if (c.pf < 0) return true;
    long pages = 2 + (allocs + reallocs + frees) / 20, tables = pages * pages * 2 + pages * 8;
    return c.pf > 0 && (long)freedkb + tables + 64 < c.pf;
  }
  int strategy(int k) const { return kind_fam(k) == F_C ? (int)c.m0 : (int)c.n0; }

  // one allocation; returns the index in live or -1
  int do_alloc(int k = -1, long size = -1) {
    if (k < 0) {
      if (only_kind >= 0) k = only_kind;
      else do {
        k = (int)r.below(K_N);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
        if (k == K_MALLOC || k == K_CALLOC || k == K_MEMALIGN || k == K_PMEMALIGN || k == K_VALLOC || k == K_ALIGNED || k == K_PVALLOC || k == K_STRDUP || k == K_REALLOC0) continue;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
        if (k >= K_NEW && k <= K_DARRN) continue;
#endif
#if !HAVE_FL
        if (k == K_DNEW || k == K_DNEWN || k == K_DARR || k == K_DARRN) continue;
#endif
        if (!cpp && k >= K_NEW && k <= K_DARRN) continue;
        break;
      } while (1);
    }
    size_t sz = size >= 0 ? (size_t)size : pick_size();
    Blk b;
    b.kind = k; b.fam = kind_fam(k); b.zero = b.shared = false; b.pat = 0; b.pin = 0; b.sl = (u8)c.slack;
    b.pb = c.pb; b.file = FILES[r.below(NFILES)]; b.line = pick_line();
    if (!kind_has_fl(k)) { b.file = 0; b.line = 0; }
    int fill = (int)c.fill;
    char str[600]; const char *sp = 0; bool threw = false;
    size_t al = 0;
    if (k == K_STRDUP || k == K_DSTRDUP) { if (sz == 0) sz = 1; if (sz > sizeof str) sz = r.range(1, sizeof str); for (size_t i = 0; i + 1 < sz; ++i) str[i] = (char)r.range(1, 255); str[sz - 1] = 0; sp = str; }
    if (sz == 0 && strategy(k) == 0) sz = 1;
    size_t req = sz;
    if (k == K_PVALLOC) sz = rup(sz);
    size_t alcl = r.below(alignbig ? 17 : 13);
    if (k == K_XC && r.pct(40)) al = 0; else al = (size_t)1 << alcl;
    if (force_al >= 0) al = (size_t)force_al;
    if ((k == K_PMEMALIGN || k == K_DPMEMALIGN) && al < 8) al = 8;
    const char *f = b.file; int l = b.line;
    void *p = 0;
    snprintf(what, sizeof what, "op %ld %s size %zu align %zu", op, kind_name(k), req, al);
    u8 stack_before = 0;
    int xpb = 0;
    switch (k) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
    case K_MALLOC: p = malloc(req); break;
    case K_CALLOC: { size_t e = r.pct(50) ? 1 : r.range(1, 7); if (e > 1) { req -= req % e; if (!req) e = 1, req = sz; } sz = req; p = r.pct(50) ? calloc(req / e, e) : calloc(e, req / e); fill = 0; break; }
    case K_MEMALIGN: p = memalign(al, req); break;
    case K_PMEMALIGN: { int e = posix_memalign(&p, al, req); if (e && p) viol("ALIGN", "posix_memalign returned %d and a block", e); break; }
    case K_VALLOC: p = valloc(req); al = PG; break;
    case K_ALIGNED: p = aligned_alloc(al, req); break;
    case K_PVALLOC: p = pvalloc(req); al = PG; break;
    case K_STRDUP: p = strdup(str); break;
    case K_REALLOC0: p = realloc(0, req); break;
#endif
    case K_DMALLOC: p = a_malloc(req, f, l); break;
    case K_DCALLOC: { size_t e = r.pct(50) ? 1 : r.range(1, 7); if (e > 1) { req -= req % e; if (!req) e = 1, req = sz; } sz = req; p = r.pct(50) ? a_calloc(req / e, e, f, l) : a_calloc(e, req / e, f, l); fill = 0; break; }
    case K_DMEMALIGN: p = a_memalign(al, req, f, l); break;
    case K_DPMEMALIGN: { int e = a_posix_memalign(&p, al, req, f, l); if (e && p) viol("ALIGN", "posix_memalign returned %d and a block", e); break; }
    case K_DVALLOC: p = a_valloc(req, f, l); al = PG; break;
    case K_DSTRDUP: p = a_strdup(str, f, l); break;
    case K_DREALLOC0: p = a_realloc(0, req, f, l); break;
#ifndef DUMA_NO_CPP_SUPPORT
    case K_NEW: try { p = ::operator new(req); } catch (std::bad_alloc &) { threw = true; if (!mayfail) viol("FAIL", "new(%zu) threw", req); } break;
    case K_NEWN: p = ::operator new(req, std::nothrow); break;
    case K_ARR: try { p = ::operator new[](req); } catch (std::bad_alloc &) { threw = true; if (!mayfail) viol("FAIL", "new[](%zu) threw", req); } break;
    case K_ARRN: p = ::operator new[](req, std::nothrow); break;
#if HAVE_FL
    case K_DNEW: try { p = ::operator new(req, f, l); } catch (std::bad_alloc &) { threw = true; if (!mayfail) viol("FAIL", "new(%zu) threw", req); } break;
    case K_DNEWN: p = ::operator new(req, std::nothrow, f, l); break;
    case K_DARR: try { p = ::operator new[](req, f, l); } catch (std::bad_alloc &) { threw = true; if (!mayfail) viol("FAIL", "new[](%zu) threw", req); } break;
    case K_DARRN: p = ::operator new[](req, std::nothrow, f, l); break;
#endif
#endif
    case K_MNEW: case K_MARR: case K_XC: {
      xpb = force_pb >= 0 ? force_pb : (int)r.below(2);
      b.pb = xpb;
      fill = r.pct(30) ? -1 : (int)r.below(256);
      if (k != K_XC) al = 0;
      p = a_allocate(al, req, xpb, fill, k == K_MNEW ? EFA_MEMBER_NEW_ELEM : k == K_MARR ? EFA_MEMBER_NEW_ARRAY : EFA_MALLOC, r.pct(50) ? DUMA_FAIL_ENV : DUMA_FAIL_NULL, f, l);
      break;
    }
    }
    (void)stack_before;
    ++op; ++allocs;
    moved();
    if (ev) { Event e = {true, sz, b.file, b.line, 0, 0}; ev(this, e); }
    bool has_al = k == K_MEMALIGN || k == K_DMEMALIGN || k == K_PMEMALIGN || k == K_DPMEMALIGN || k == K_VALLOC || k == K_DVALLOC || k == K_ALIGNED || k == K_PVALLOC || (k == K_XC && al);
    b.p = (char *)p; b.sz = sz;
    if (sz == 0) {
      int st = strategy(k);
      if (st == 1) { if (p) viol("ZERO", "%s(0) = %p with strategy 1", kind_name(k), p); return -1; }
      if (!p) { if (!mayfail) viol("ZERO", "%s(0) = NULL with strategy %d", kind_name(k), st); return -1; }
      b.zero = true; b.shared = st == 2; b.al = 1;
      verify_new(b, -1, 0, 0, 0);
      if (b.shared && !r.pct(20)) { if (r.pct(50)) do_release(b); return -1; }
      live[n++] = b;
      return n - 1;
    }
    b.al = has_al ? al : malloc_align(sz);
    if (!p) {
      ++nulls;
      if (!mayfail) viol("FAIL", "%s(%zu) returned NULL", kind_name(k), req);
      // a refused request of a C function ends the program if so configured; the plain new forms throw
      if (b.fam == F_C && k != K_XC && c.failexit) viol("FAIL", "%s(%zu) returned NULL with DUMA_MALLOC_FAILEXIT=1", kind_name(k), req);
      if (!threw && (k == K_NEW || k == K_ARR || k == K_DNEW || k == K_DARR)) viol("FAIL", "%s(%zu) returned NULL", kind_name(k), req);
      return -1;
    }
    verify_new(b, sp ? -1 : fill, sp, 0, 0);
    write_pat(b);
    live[n++] = b;
    return n - 1;
  }
  void record_free(const Blk &b) {
    freedkb += (rup(b.sz) + 2 * PG + (b.al > PG ? b.al : 0)) >> 10;
    if (b.zero || nfr >= MAXFR) return;
    fr[nfr].p = (uintptr_t)b.p; fr[nfr].sz = b.sz; ++nfr;
  }
  int oddpct = 12;
  long errnos = 0;
  int pick_line() {
    static const int odd[] = {1, 2, 255, 256, 32767, 32768, 65535, 65536, 99999, 2147483647};
    return r.pct(oddpct) ? odd[r.below(10)] : (int)r.range(1, maxline);
  }
  // calls a release function that fits
  void do_release(Blk &b) {
    if (pre) pre(this, b);
    const char *f = FILES[r.below(NFILES)]; int l = pick_line();
    bool fl = true;
    int en = r.pct(20) ? 0 : (int)r.range(1, 133);     // releasing leaves errno alone
    switch (b.fam) {
    case F_C: {
      int w = (int)r.below(5);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
      if (w < 2) w = 2;
#endif
      snprintf(what, sizeof what, "op %ld release %d of %s block %p+%zu", op, w, kind_name(b.kind), b.p, b.sz);
      errno = en;
      switch (w) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
      case 0: fl = false; free(b.p); break;
      case 1: fl = false; { void *q = realloc(b.p, 0); if (q) viol("ZERO", "realloc(p, 0) returned a pointer"); } break;
#endif
      case 2: a_free(b.p, f, l); break;
      case 3: { void *q = a_realloc(b.p, 0, f, l); if (q) viol("ZERO", "realloc(p, 0) returned a pointer"); } break;
      case 4: a_deallocate(b.p, EFA_FREE, f, l); break;
      }
      break;
    }
    case F_NEW: case F_ARR: {
      int w = (int)r.below(5);
#if !HAVE_FL
      if (w < 2) w += 2;
#endif
      snprintf(what, sizeof what, "op %ld delete %d of %s block %p+%zu", op, w, kind_name(b.kind), b.p, b.sz);
      bool a = b.fam == F_ARR;
      errno = en;
#ifndef DUMA_NO_CPP_SUPPORT
      switch (w) {
#if HAVE_FL
      case 0: if (a) ::operator delete[](b.p, f, l); else ::operator delete(b.p, f, l); break;
      case 1: if (a) ::operator delete[](b.p, std::nothrow, f, l); else ::operator delete(b.p, std::nothrow, f, l); break;
#endif
      case 2: fl = false; if (a) ::operator delete[](b.p); else ::operator delete(b.p); break;
      case 3: fl = false; if (a) ::operator delete[](b.p, std::nothrow); else ::operator delete(b.p, std::nothrow); break;
#ifdef VT_SAN          // the sanitizers bring their own
      case 4: fl = false; if (a) ::operator delete[](b.p); else ::operator delete(b.p); break;
#else
      case 4: fl = false; if (a) ::operator delete[](b.p, b.sz); else ::operator delete(b.p, b.sz); break;
#endif
      }
#endif
      break;
    }
    case F_MNEW: errno = en; a_deallocate(b.p, EFA_MEMBER_DEL_ELEM, f, l); break;
    case F_MARR: errno = en; a_deallocate(b.p, EFA_MEMBER_DEL_ARRAY, f, l); break;
    }
    if (errno != en) viol("ERRNO", "errno was %d before and is %d after the release", en, errno);
    ++errnos;
    ++op; ++frees;
    moved();
    if (post) post(this, true);
    if (ev && !b.shared) { Event e = {false, b.sz, fl ? f : 0, fl ? l : 0, b.file, b.line}; ev(this, e); }
  }
  void drop(int i) { live[i] = live[--n]; }
  void after_free(const Blk &b) {
    if (b.shared) { if (b.p && !dead(b.p)) viol("ZERO", "shared zero-size address accessible"); return; }
    record_free(b);
    probe_freed((uintptr_t)b.p, b.sz, b.zero);
  }
  void probe_freed(uintptr_t p, size_t sz, bool zero) {
    if (!solo) return;
    if (zero) { if (!dead((char *)p)) { if (!covered(p)) viol("UAF", "freed zero-size block %p is accessible", (void *)p); } return; }
    uintptr_t q[4] = {p, p + sz - 1, p + r.below(sz), rdn(p + r.below(sz)) < p ? p : rdn(p + r.below(sz))};
    for (int i = 0; i < 4; ++i) {
      if (q[i] < p || q[i] >= p + sz) continue;
      ++probes;
      if (probe_r((char *)q[i]) == 0 || probe_s((char *)q[i], 0) == 0)
        if (!covered(q[i]) && !in_base(q[i])) { viol("UAF", "byte %zu of freed %zu-byte block %p is accessible", (size_t)(q[i] - p), sz, (void *)p); return; }
    }
  }
  bool in_base(uintptr_t a) const { for (int i = 0; i < nbase; ++i) if (base[i].a <= a && a < base[i].b) return true; return false; }
  void do_free(int i = -1) {
    if (!n) return;
    if (i < 0) i = lifo ? n - 1 : (int)r.below(n);
    Blk b = live[i];
    if (!b.zero) check_pat(b, b.p, b.sz, "before release");
    drop(i);
    do_release(b);
    after_free(b);
  }
  // the allocation made the library move its table: keep the kernel's view from before the next call
  void *table = 0; long moves = 0, snap_op = 0; bool snap = false;
  void moved() {
    if ((void *)_duma_g.allocList == table) return;
    table = (void *)_duma_g.allocList; ++moves;
    snap = base && moves < 300 && vt_nmaps < 20000 && maps_read();
    snap_op = op;
  }
  void do_realloc() {
    int i = -1;
    for (int t = 0; t < 8 && n; ++t) { int j = (int)r.below(n); if (live[j].fam == F_C) { i = j; break; } }
    if (i < 0) return;
    Blk o = live[i];
    size_t sz = pick_size();
    if (sz == 0) sz = 1;
    if (r.pct(25) && o.sz > 2) sz = o.sz + r.below(3) - 1;
    Blk b = o;
    bool plain = r.pct(50);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
    plain = false;
#endif
    b.kind = plain ? K_REALLOC : K_DREALLOC;
    b.pb = c.pb; b.zero = b.shared = false; b.sz = sz; b.al = malloc_align(sz); b.fam = F_C; b.pin = 0; b.sl = (u8)c.slack;
    b.file = plain ? 0 : FILES[r.below(NFILES)]; b.line = plain ? 0 : pick_line();
    if (!o.zero) check_pat(o, o.p, o.sz, "before realloc");
    snprintf(what, sizeof what, "op %ld %s %p+%zu to %zu", op, kind_name(b.kind), o.p, o.sz, sz);
    void *p;
    if (pre) pre(this, o);
    busy = o.p;
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
    if (plain) p = realloc(o.p, sz); else
#endif
    p = a_realloc(o.p, sz, b.file, b.line);
    busy = 0;
    ++op; ++reallocs;
    moved();
    if (post) post(this, p != 0);
    if (ev) { Event e = {true, sz, b.file, b.line, 0, 0}; ev(this, e); if (!o.shared && p) { Event e2 = {false, o.sz, b.file, b.line, o.file, o.line}; ev(this, e2); } }
    if (!p) {
      if (!mayfail) viol("FAIL", "realloc to %zu returned NULL", sz);
      if (c.failexit) viol("FAIL", "realloc to %zu returned NULL with DUMA_MALLOC_FAILEXIT=1", sz);
      if (!o.zero) check_pat(o, o.p, o.sz, "after failed realloc");
      return;
    }
    b.p = (char *)p;
    drop(i);
    if (o.zero) { verify_new(b, o.shared ? (int)c.fill : -1, 0, 0, 0); }
    else verify_new(b, -1, 0, &o, o.sz < sz ? o.sz : sz);
    write_pat(b);
    live[n++] = b;
    if (!o.shared) { record_free(o); probe_freed((uintptr_t)o.p, o.sz, o.zero); }
  }
  // requests nobody can satisfy: refused as documented, nothing else happens
  void do_refused() {
    static const size_t sizes[] = {(size_t)-1, (size_t)-2, (size_t)-15, (size_t)-16, (size_t)-4095, (size_t)-4096, (size_t)-4097, (size_t)-8192, (size_t)-8193,
      (size_t)-1 - (1u << 20), (size_t)-1 - (2u << 20), (size_t)-1 / 2, (size_t)-1 / 2 + 1, (size_t)-1 / 2 + 4096, (size_t)1 << 62, (size_t)1 << 61, (size_t)1 << 60, (size_t)1 << 52, (size_t)1 << 48, ((size_t)1 << 47) + 12345};
    size_t sz = sizes[r.below(sizeof sizes / sizeof *sizes)];
    if (r.pct(30)) sz = (size_t)0 - r.range(1, 70000);
    int k = (int)r.below(14);
    bool exit_ = c.failexit != 0;
    if (exit_) { static const int never[] = {4, 8, 9, 10, 11, 12, 13}; k = never[r.below(7)]; }
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
    if (k < 3) k = 3;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
    if (k >= 8 && k <= 11) k = 12;
#endif
    snprintf(what, sizeof what, "op %ld refused request %d of %zu", op, k, sz);
    if (c.pf != 0) limited = true;       // protected memory may be given back for it
    void *p = 0; int en = 0; bool threw = false, ok = true;
    errno = 0;
    switch (k) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
    case 0: p = malloc(sz); break;
    case 1: { size_t a = r.range(2, 1u << 20); size_t b = (size_t)-1 / a + 1 + r.below(3); p = r.pct(50) ? calloc(a, b) : calloc(b, a); break; }
    case 2: p = memalign((size_t)1 << r.below(20), sz); break;
#endif
    case 3: p = a_malloc(sz, "refused.c", 3); break;
    case 4: { void *q = (void *)&op; static const size_t bad[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 24, 63, 4095, 4097, (size_t)-1, ((size_t)1 << 63) + 8}; size_t a = bad[r.below(16)];
      en = a_posix_memalign(&q, a, r.pct(50) ? r.below(10000) : sz, "refused.c", 4);
      if (en != EINVAL) viol("ALIGN", "posix_memalign with alignment %zu returned %d, not EINVAL", a, en);
      if (q != (void *)&op) viol("ALIGN", "posix_memalign with alignment %zu changed the pointer", a);
      break; }
    case 5: { size_t a = r.range(2, 1u << 20); size_t b = (size_t)-1 / a + 1 + r.below(3); p = r.pct(50) ? a_calloc(a, b, "refused.c", 5) : a_calloc(b, a, "refused.c", 5); break; }
    case 6: { void *q = 0; en = a_posix_memalign(&q, (size_t)8 << r.below(15), sz, "refused.c", 6); if (en != ENOMEM) viol("FAIL", "posix_memalign of %zu returned %d, not ENOMEM", sz, en); p = q; break; }
    case 7: {
      if (!n) break;
      Blk &b = live[r.below(n)];
      if (b.fam != F_C) break;
      p = a_realloc(b.p, sz, "refused.c", 7);
      if (!p && !b.zero) { check_pat(b, b.p, b.sz, "after refused realloc"); probe_guard(b, false); if (a_usable(b.p) != b.sz) viol("FAIL", "refused realloc changed the size"); }
      break; }
#ifndef DUMA_NO_CPP_SUPPORT
    case 8: try { p = ::operator new(sz); } catch (const std::bad_alloc &) { threw = true; } ok = threw; break;
    case 9: try { p = ::operator new[](sz); } catch (const std::bad_alloc &) { threw = true; } ok = threw; break;
    case 10: p = ::operator new(sz, std::nothrow); break;
    case 11: p = ::operator new[](sz, std::nothrow); break;
#endif
    case 12: p = a_allocate((size_t)1 << r.below(20), sz, (int)r.below(2), -1, EFA_MALLOC, DUMA_FAIL_NULL, "refused.c", 12); break;
    case 13: { size_t big = (size_t)1 << r.range(46, 63); p = a_allocate(big, r.range(1, 9000), (int)r.below(2), -1, EFA_MEMALIGN, DUMA_FAIL_NULL, "refused.c", 13); sz = big; break; }
    }
    ++op; ++refusals;
    if (p) { viol("FAIL", "request %d of %zu bytes was answered with %p (usable %zu)", k, sz, p, a_usable(p)); return; }
    if (!ok) viol("FAIL", "new of %zu bytes did not throw", sz);
    if (_duma_g.allocList && !dead(_duma_g.allocList)) viol("META", "the allocator's table is accessible after a refused request");
    situation(mix(777 + k, sz));
  }
  void do_check() {
    if (r.pct(20)) { snprintf(what, sizeof what, "op %ld checkAll", op); DUMA_CHECKALL(); ++op; return; }
    if (!n) return;
    Blk &b = live[r.below(n)];
    snprintf(what, sizeof what, "op %ld check %p", op, b.p);
    DUMA_CHECK(b.p);
    ++op;
  }
  void do_dyn() {
    switch (r.below(3)) {
    case 0: { static const int a[] = {0, 1, 2, 4, 8, 16, 32, 64}; int v = a[r.below(8)]; DUMA_SET_ALIGNMENT(v); c.align = v ? v : 1; break; }
    case 1: c.pb = (long)r.below(2); DUMA_SET_PROTECT_BELOW((int)c.pb); break;
    case 2: c.fill = r.pct(25) ? -1 : (long)r.below(256); DUMA_SET_FILL((int)c.fill); break;
    }
  }
  void probe_old() {
    if (n) {
      Blk &b = live[r.below(n)];
      snprintf(what, sizeof what, "op %ld re-probing %s block %p+%zu", op, kind_name(b.kind), b.p, b.sz);
      probe_guard(b, false);
      if (!b.zero) { probes += 2; if (!alive(b.p + r.below(b.sz)) || !alive(b.p)) viol(b.pb ? "UNDER" : "OVER", "inside of live %zu-byte block %p inaccessible", b.sz, b.p); if (r.pct(20)) { check_pat(b, b.p, b.sz, "re-read"); check_slackfill(b); } }
    }
    if (nfr) { Fr &f = fr[r.below(nfr)]; snprintf(what, sizeof what, "op %ld re-probing freed %p+%zu", op, (void *)f.p, f.sz); probe_freed(f.p, f.sz, false); }
  }
  static int cmp(const void *a, const void *b) { uintptr_t x = ((const Map *)a)->a, y = ((const Map *)b)->a; return x < y ? -1 : x > y; }
  static void sort_iv(Map *v, int n) {  // heap sort; qsort of libc may allocate
    for (int i = n / 2 - 1; i >= 0; --i) sift(v, i, n);
    for (int e = n - 1; e > 0; --e) { Map t = v[0]; v[0] = v[e]; v[e] = t; sift(v, 0, e); }
  }
  static void sift(Map *v, int i, int n) {
    for (;;) { int c = 2 * i + 1; if (c >= n) return; if (c + 1 < n && v[c + 1].a > v[c].a) ++c; if (v[i].a >= v[c].a) return; Map t = v[i]; v[i] = v[c]; v[c] = t; i = c; }
  }
  // compares the kernel's view of the whole address space with the model
  void sweep() {
    if (!base) return;
    if (snap_op != op) snap = false;       // no longer what the model describes
    if (!snap && !maps_read()) return;
    snprintf(what, sizeof what, snap ? "op %ld sweep, table just moved" : "op %ld sweep", op);
    snap = false;
    ++sweeps;
    int m = 0;
    for (int i = 0; i < n; ++i) {
      Blk &b = live[i];
      if (b.zero) { if (maps_acc(rdn((uintptr_t)b.p))) viol("ZERO", "zero-size block %p accessible", b.p); continue; }
      uintptr_t lo = rdn((uintptr_t)b.p), hi = rup((uintptr_t)b.p + b.sz);
      sweptpages += (hi - lo) / PG;
      if (!maps_rw(lo, hi)) viol(b.pb ? "UNDER" : "OVER", "live block %p+%zu is not accessible throughout", b.p, b.sz);
      if (b.pb) { if (maps_acc(lo - PG)) viol("UNDER", "page below live block %p+%zu is accessible", b.p, b.sz); }
      else if (maps_acc(hi)) viol("OVER", "page behind live block %p+%zu is accessible", b.p, b.sz);
      if (b.al > PG) { if (b.pb) hi += b.al; else lo -= b.al; }
      iv[m].a = lo; iv[m].b = hi; ++m;
    }
    sort_iv(iv, m);
    for (int i = 0; i < vt_nmaps; ++i) {
      Map &k = vt_maps[i];
      if (k.stack || !(k.r || k.w || k.x)) continue;
      uintptr_t q = k.a;
      while (q < k.b) {
        bool ok = false;
        for (int j = 0; j < nbase; ++j) if (base[j].a <= q && q < base[j].b) { q = base[j].b; ok = true; break; }
        if (ok) continue;
        int lo = 0, hi = m;  // last interval starting at or below q
        while (lo < hi) { int md = (lo + hi) / 2; if (iv[md].a <= q) lo = md + 1; else hi = md; }
        for (int j = lo - 1; j >= 0 && j > lo - 40; --j) if (iv[j].a <= q && q < iv[j].b) { q = iv[j].b; ok = true; break; }
        if (ok) continue;
        bool uaf = false;
        for (long j = nfr - 1; j >= 0; --j) if (rdn(fr[j].p) <= q && q < rup(fr[j].p + fr[j].sz)) { viol("UAF", "page %p of freed block %p+%zu is accessible", (void *)q, (void *)fr[j].p, fr[j].sz); uaf = true; break; }
        if (!uaf) viol("POOL", "page %p is accessible and belongs to no live block", (void *)q);
        q += PG;
        break;
      }
    }
    // bookkeeping
    if (_duma_g.allocList && (maps_acc((uintptr_t)_duma_g.allocList) || !dead(_duma_g.allocList))) viol("META", "the allocator's table is accessible");
    if (_duma_g.null_addr && (maps_acc(rdn((uintptr_t)_duma_g.null_addr)) || maps_acc(rdn((uintptr_t)_duma_g.null_addr) - PG))) viol("ZERO", "the shared zero-size pages are accessible");
  }
  // the library leaves the calling thread's cancellation state and signal mask alone
  struct thread_state {
    Engine *e; int was = 0, set; bool sig; sigset_t m;
    thread_state(Engine *e_) : e(e_) {
      set = e->r.pct(50) ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; sig = e->op % 16 == 0;
      pthread_setcancelstate(set, &was);
      if (sig) sigprocmask(SIG_SETMASK, 0, &m);
    }
    void end() {
      int o = -1; pthread_setcancelstate(was, &o);
      if (o != set) viol("STATE", "the cancellation state of the thread has been changed: %d, was %d", o, set);
      if (sig) {
        sigset_t n; sigprocmask(SIG_SETMASK, 0, &n);
        for (int i = 1; i < 32; ++i) if (sigismember(&n, i) != sigismember(&m, i)) { viol("STATE", "signal %d is %s blocked after a call", i, sigismember(&n, i) ? "now" : "no longer"); break; }
      }
    }
  };
  void step() {
    thread_state ts(this);
    u64 k = r.below(100);
    int target = maxlive;
    if (n >= target || (n > 0 && k < (u64)(n > target * 2 / 3 ? 52 : 38))) {
      if (k % 5 == 0 && n < target) do_realloc(); else do_free();
    } else if (k < 93) { if (k % 6 == 0) do_realloc(); else do_alloc(); }
    else do_check();
    if (refuse && r.pct(refuse)) do_refused();
    ts.end();
    if (_duma_g.allocList && !dead(_duma_g.allocList)) viol("META", "the allocator's table is accessible");
    // the table has just been moved into a bigger one: it is closed as a whole, and the old one is gone
    if (snap && snap_op == op) sweep();
    if (dyn && r.pct(4)) do_dyn();
    if (r.pct(50)) probe_old();
  }
  void run(long ops, long every = 250) {
    for (long i = 0; i < ops; ++i) {
      step();
      if (every && i % every == every - 1) sweep();
    }
    if (every) sweep();
  }
  void finish(bool freeall = true) {
    while (freeall && n) do_free();
    if (base) sweep();
  }
  void stats() {
    stat_("ops %ld", op); stat_("allocs %ld", allocs); stat_("frees %ld", frees); stat_("reallocs %ld", reallocs);
    stat_("probes %ld", probes); stat_("sweeps %ld", sweeps); stat_("tablemoves %ld", moves); stat_("sweptpages %ld", sweptpages); stat_("nulls %ld", nulls); stat_("refused %ld", refusals); stat_("errnos %ld", errnos);
  }
};
