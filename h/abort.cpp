// Misuse in forked children: the oracle is how the child ended and what it said.
#include "engine.h"
static Engine *E;
static char mem[sizeof(Engine)];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", E ? E->what : ""); }
static long judged = 0;
static long want(const char *k, long d) { return env_i(k, d); }

static void kase(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void kase(const char *fmt, ...) {
  char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  u64 h = 1469598103934665603ull;
  for (char *p = b; *p; ++p) h = mix(h, (u8)*p);
  situation(h);
  static int shown = 0;
  if (shown < 3) { ++shown; case_("%s", b); }
}
static const char *ended(const Child &c) {
  static char b[100];
  if (c.timeout) return "hung";
  if (WIFEXITED(c.status)) { snprintf(b, sizeof b, "exit %d", WEXITSTATUS(c.status)); return b; }
  snprintf(b, sizeof b, "signal %d", WTERMSIG(c.status));
  return b;
}
static char hexb[40];
static const char *hex(const void *p) { snprintf(hexb, sizeof hexb, "%lx", (unsigned long)p); return hexb; }

// what allocating functions exist in this build
static bool exists(int k) {
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
  if (k == K_MALLOC || k == K_CALLOC || k == K_MEMALIGN || k == K_PMEMALIGN || k == K_VALLOC || k == K_ALIGNED || k == K_PVALLOC || k == K_STRDUP || k == K_REALLOC0) return false;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
  if (k >= K_NEW && k <= K_DARRN) return false;
#endif
#if !HAVE_FL
  if (k == K_DNEW || k == K_DNEWN || k == K_DARR || k == K_DARRN) return false;
#endif
  return k < K_N;
}
// release forms
enum Rel { R_FREE, R_DFREE, R_REALLOC0, R_DREALLOC0, R_REALLOC, R_DREALLOC, R_DEL, R_DELN, R_DELS, R_DDEL, R_DDELN, R_ADEL, R_ADELN, R_ADELS, R_DADEL, R_DADELN, R_MDEL, R_MADEL, R_CHECK, R_USABLE, R_N };
static const char *rel_name(int r) {
  static const char *n[] = {"free", "_duma_free", "realloc(p,0)", "_duma_realloc(p,0)", "realloc", "_duma_realloc", "delete", "delete nothrow", "delete sized", "delete(file,line)", "delete(nothrow,file,line)",
    "delete[]", "delete[] nothrow", "delete[] sized", "delete[](file,line)", "delete[](nothrow,file,line)", "member delete", "member delete[]", "DUMA_CHECK", "malloc_usable_size"};
  return n[r];
}
static bool rel_exists(int r) {
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
  if (r == R_FREE || r == R_REALLOC0 || r == R_REALLOC) return false;
#endif
#ifdef DUMA_NO_CPP_SUPPORT
  if (r >= R_DEL && r <= R_DADELN) return false;
#endif
#if !HAVE_FL
  if (r == R_DDEL || r == R_DDELN || r == R_DADEL || r == R_DADELN) return false;
#endif
  return true;
}
static int rel_fam(int r) { return r <= R_DREALLOC ? F_C : r <= R_DDELN ? F_NEW : r <= R_DADELN ? F_ARR : r == R_MDEL ? F_MNEW : r == R_MADEL ? F_MARR : -1; }
static bool rel_fl(int r) { return HAVE_FL && (r == R_DFREE || r == R_DREALLOC0 || r == R_DREALLOC || r == R_DDEL || r == R_DDELN || r == R_DADEL || r == R_DADELN || r == R_MDEL || r == R_MADEL); }
static const char *rel_type(int r) {
  switch (r) {
  case R_FREE: case R_DFREE: return "free()";
  case R_REALLOC0: case R_DREALLOC0: case R_REALLOC: case R_DREALLOC: return "realloc()";
  case R_MDEL: return "member scalar delete";
  case R_MADEL: return "member vector delete[]";
  default: return rel_fam(r) == F_NEW ? "scalar delete" : "vector delete[]";
  }
}
__attribute__((noinline)) static void do_rel(int r, void *p, const char *f, int l, size_t nsz = 77) {
  switch (r) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
  case R_FREE: free(p); break;
  case R_REALLOC0: { void *volatile q = realloc(p, 0); (void)q; break; }
  case R_REALLOC: { void *volatile q = realloc(p, nsz); (void)q; break; }
#endif
  case R_DFREE: a_free(p, f, l); break;
  case R_DREALLOC0: a_realloc(p, 0, f, l); break;
  case R_DREALLOC: a_realloc(p, nsz, f, l); break;
#ifndef DUMA_NO_CPP_SUPPORT
  case R_DEL: ::operator delete(p); break;
  case R_DELN: ::operator delete(p, std::nothrow); break;
#ifdef VT_SAN
  case R_DELS: ::operator delete(p); break;
  case R_ADELS: ::operator delete[](p); break;
#else
  case R_DELS: ::operator delete(p, (size_t)8); break;
  case R_ADELS: ::operator delete[](p, (size_t)8); break;
#endif
  case R_ADEL: ::operator delete[](p); break;
  case R_ADELN: ::operator delete[](p, std::nothrow); break;
#if HAVE_FL
  case R_DDEL: ::operator delete(p, f, l); break;
  case R_DDELN: ::operator delete(p, std::nothrow, f, l); break;
  case R_DADEL: ::operator delete[](p, f, l); break;
  case R_DADELN: ::operator delete[](p, std::nothrow, f, l); break;
#endif
#endif
  case R_MDEL: a_deallocate(p, EFA_MEMBER_DEL_ELEM, f, l); break;
  case R_MADEL: a_deallocate(p, EFA_MEMBER_DEL_ARRAY, f, l); break;
  case R_CHECK: DUMA_CHECK(p); break;
  case R_USABLE: { volatile size_t s = a_usable(p); (void)s; break; }
  }
}
// a history of some length, so that the table is not in its first state
static void background(long ops) { E->run(ops, 0); }

// ------------------------------------------------------------------ A04
static void slack_cases(long cases) {
  Engine *e = E;
  for (long c = 0; c < cases; ++c) {
    background(e->r.below(12));
    int k; do k = (int)e->r.below(K_N); while (!exists(k));
    static const long sizes[] = {1, 2, 3, 5, 7, 8, 13, 16, 31, 33, 64, 100, 250, 1000, 2000, 4000, 4090, 4095, 4097, 5000, 8191, 9000, 12287};
    long sz = e->r.pct(50) ? sizes[e->r.below(sizeof sizes / sizeof *sizes)] : (long)e->r.range(1, 9000);
    e->force_al = e->r.pct(15) ? 1L << e->r.range(3, 14) : e->r.pct(6) ? 1L << e->r.range(13, 18) : 1L << e->r.range(3, 8);
    int i = e->do_alloc(k, sz);
    e->force_al = -1;
    if (i < 0) continue;
    Blk b = e->live[i];
    uintptr_t lo, hi; e->slack(b, lo, hi);
    if (b.al > PG && b.pb) { maps_read(); for (size_t m = b.al - PG; m && maps_acc(hi) && !e->covered(hi, b.p) && !e->in_base(hi); m -= PG) hi += PG; }
    if (b.al > PG && !b.pb) { maps_read(); for (size_t m = b.al - PG; m && maps_acc(lo - PG) && !e->covered(lo - PG, b.p) && !e->in_base(lo - PG); m -= PG) lo -= PG; }
    size_t below = (uintptr_t)b.p - lo, above = hi - ((uintptr_t)b.p + b.sz);
    if (below + above == 0) { e->do_free(i); continue; }
    for (int t = 0; t < 4; ++t) {
      bool dn = below && (!above || e->r.pct(50));
      size_t len = dn ? below : above, off;
      switch (e->r.below(5)) { case 0: off = 0; break; case 1: off = len - 1; break; case 2: off = len > 1 ? 1 : 0; break; default: off = e->r.below(len); }
      char *at = dn ? b.p - 1 - off : b.p + b.sz + off;   // off 0: right beside the block
      u8 old = (u8)*at, nv;
      switch (e->r.below(4)) { case 0: nv = old ^ 1; break; case 1: nv = old ^ 0x80; break; case 2: nv = (u8)(old + 1); break; default: nv = old ? 0 : 0xff; }
      // how it is found
      int way;
      do way = (int)e->r.below(R_N + 3); while (way < R_N && (!rel_exists(way) || way == R_USABLE || (rel_fam(way) >= 0 && rel_fam(way) != b.fam)));
      long freq = e->c.check_freq;
      if (way == R_N + 1 && freq <= 0) way = R_N;
      if (way == R_N + 2) way = R_CHECK;
      const char *f = "src/finder.c"; int l = 4711;
      bool expect_free = way < R_N;
      Child &ch = in_child([&] {
        *at = (char)nv;
        if (way < R_N) do_rel(way, b.p, f, l, b.sz + 3);
        else if (way == R_N) DUMA_CHECKALL();
        else {
          // at the latest the freq-th call from now checks
          void *v[2] = {0, 0};
          bool mix = e->r.pct(70);
          for (long q = 0; q < freq; ++q) {
            size_t n = e->c.m0 == 3 && e->r.pct(30) ? 0 : e->r.range(1, 6000);
            if (!mix) { if (q & 1) { a_free(v[0], f, l); v[0] = 0; } else v[0] = a_malloc(10, f, l); }
            else if (v[0] && e->r.pct(50)) { if (e->r.pct(30) && n) v[0] = a_realloc(v[0], n, f, l); else { a_free(v[0], f, l); v[0] = 0; } }
            else switch (e->r.below(4)) { case 0: v[0] = a_calloc(n, 1, f, l); break; case 1: v[0] = a_memalign(32, n, f, l); break; default: v[0] = a_malloc(n, f, l); }
          }
        }
      });
      (void)expect_free;
      ++judged;
      kase("slack %s pb%d al%zu %s off%zu len%zu way%d", kind_name(b.kind), b.pb, b.al, dn ? "below" : "above", off < 20 ? off : 20 + off % 16, len < 20 ? len : 20 + len % 16, way);
      if (!aborted(ch)) {
        viol("SLACK", "byte %s%zu of the slack of a %zu-byte block from %s (align %zu, protect-below %d) changed from %02x to %02x: %s did not report it (%s)", dn ? "-" : "+", off + 1, b.sz, kind_name(b.kind), b.al, b.pb, old, nv,
             way < R_N ? rel_name(way) : way == R_N ? "DUMA_CHECKALL" : "DUMA_CHECK_FREQ", ended(ch));
        continue;
      }
      if (!has(ch, dn ? "below userSpace" : "above userSpace")) viol("SLACK", "overwrite %s the block is reported as: %.300s", dn ? "below" : "above", ch.out);
      if (!has(ch, hex(b.p))) viol("SLACK", "report does not name block %p: %.300s", b.p, ch.out);
#if HAVE_FL
      char s[400];
      snprintf(s, sizeof s, "size=%zu", b.sz);
      if (!has(ch, s)) viol("SLACK", "report does not name size %zu: %.300s", b.sz, ch.out);
      if (b.line) { snprintf(s, sizeof s, "alloced from %s(%d)", b.file, b.line); if (!has(ch, s)) viol("SLACK", "report does not say '%s': %.300s", s, ch.out); }
#endif
    }
    if (e->r.pct(70)) e->do_free(e->n - 1);
  }
}

// ------------------------------------------------------------------ A05
static void mismatch_cases(long rounds) {
  Engine *e = E;
  for (long c = 0; c < rounds; ++c)
    for (int k = 0; k < K_N; ++k) {
      if (!exists(k)) continue;
      background(e->r.below(6));
      long sz = e->r.pct(10) ? 0 : (long)e->r.range(1, 5000);
      if (e->r.pct(10)) e->force_al = 1L << e->r.range(3, 14);
      int i = e->do_alloc(k, sz);
      e->force_al = -1;
      if (i < 0) continue;
      Blk b = e->live[i];
      for (int r = 0; r < R_CHECK; ++r) {
        if (!rel_exists(r)) continue;
        if (c > 0 && !e->r.pct(40)) continue;
        const char *f = FILES[e->r.below(NFILES)]; int l = e->pick_line();
        size_t nsz = e->r.range(1, 9000);
        bool ok = b.shared || rel_fam(r) == b.fam;
        Child &ch = in_child([&] { do_rel(r, b.p, f, l, nsz); e->drop(i); e->mayfail = false; a_free(a_malloc(33, "x.c", 1), "x.c", 2); });
        ++judged;
        kase("release %s of %s%s", rel_name(r), kind_name(k), b.shared ? " shared" : b.zero ? " zero" : "");
        if (ok) {
          if (!exited(ch)) viol("RELEASE", "%s of a %zu-byte block from %s: %s, %.300s", rel_name(r), b.sz, kind_name(k), ended(ch), ch.out);
          else if (ch.n) viol("RELEASE", "%s of a %zu-byte block from %s says: %.300s", rel_name(r), b.sz, kind_name(k), ch.out);
          continue;
        }
        if (!aborted(ch)) { viol("RELEASE", "%s of a block from %s was not stopped: %s", rel_name(r), kind_name(k), ended(ch)); continue; }
        char s[500];
        if (!has(ch, "Free mismatch: allocator '")) viol("RELEASE", "%s of a block from %s is reported as: %.300s", rel_name(r), kind_name(k), ch.out);
        snprintf(s, sizeof s, "deallocator '%s' called", rel_type(r));
        if (!has(ch, s)) viol("RELEASE", "mismatch report of %s/%s does not say \"%s\": %.300s", kind_name(k), rel_name(r), s, ch.out);
        const char *kt = k == K_XC ? "malloc()" : kind_type(k);
        snprintf(s, sizeof s, "allocator '%s' used", kt);
        if (!has(ch, s)) viol("RELEASE", "mismatch report of %s/%s does not say \"%s\": %.300s", kind_name(k), rel_name(r), s, ch.out);
#if HAVE_FL
        if (b.line) { snprintf(s, sizeof s, "used  at %s(%d)", b.file, b.line); if (!has(ch, s)) viol("RELEASE", "mismatch report lacks '%s': %.300s", s, ch.out); }
        if (rel_fl(r)) { snprintf(s, sizeof s, "called at %s(%d)", f, l); if (!has(ch, s)) viol("RELEASE", "mismatch report lacks '%s': %.300s", s, ch.out); }
#endif
      }
      if (e->r.pct(80)) e->do_free(i);
    }
}
static int some_static[64];
static char *foreign;
static void bad_address_cases(long cases) {
  Engine *e = E;
  for (long c = 0; c < cases; ++c) {
    background(e->r.below(10));
    int k; do k = (int)e->r.below(K_N); while (!exists(k));
    bool nil = e->r.pct(8);        // a block of zero bytes, released twice
    int i = e->do_alloc(k, nil ? 0 : (long)e->r.range(2, 9000));
    if (i < 0) continue;
    Blk b = e->live[i];
    if (b.shared) continue;
    int kind = nil ? (int)e->r.range(15, 18) : e->r.pct((int)env_i("VT_LONGAGO", 0)) ? 19 : (int)e->r.below(23);
    char stackv[64];
    void *a = 0; const char *nm = "";
    bool freed = false; const char *ff = 0; int fl = 0; bool fknown = false;
    switch (kind) {
    case 0: a = b.p + 1; nm = "block+1"; break;
    case 1: a = b.p - 1; nm = "block-1"; break;
    case 2: a = b.p + e->r.range(1, b.sz - 1); nm = "interior"; break;
    case 3: a = b.p + b.sz; nm = "block end"; break;
    case 4: a = (void *)rup((uintptr_t)b.p + b.sz); nm = "page end"; if (a == (void *)b.p) continue; break;
    case 5: a = (char *)rup((uintptr_t)b.p + b.sz) + PG; nm = "behind guard"; break;
    case 6: a = (void *)(rdn((uintptr_t)b.p) - PG); nm = "page below"; break;
    case 7: a = stackv + 16; nm = "stack"; break;
    case 8: a = some_static + 4; nm = "static"; break;
    case 9: a = (void *)(uintptr_t)&bad_address_cases; nm = "code"; break;
    case 10: a = (void *)1; nm = "1"; break;
    case 11: a = (void *)(uintptr_t)-1; nm = "-1"; break;
    case 12: a = foreign + PG * e->r.below(8); nm = "foreign map"; break;
    case 13: a = (char *)_duma_g.null_addr + 1 + e->r.below(64); nm = "near shared zero"; break;
    case 14: a = (char *)_duma_g.null_addr - PG; nm = "below shared zero"; break;
    case 15: case 16: case 17: case 18: freed = true; nm = "freed"; break;
    case 19: freed = true; nm = "freed long ago"; break;
    case 20: freed = true; nm = "moved by realloc"; break;
    case 21: a = (void *)((uintptr_t)e->r.next() & 0x7ffffffff000ull); nm = "random"; break;
    case 22: a = (void *)_duma_g.allocList; nm = "the allocator's own table"; break;
    }
    if (freed && kind != 19) {
      if (kind == 20) {
        if (b.fam != F_C) continue;
        ff = "moved.c"; fl = e->pick_line(); fknown = true;
        e->drop(i);
        Blk nb = b; nb.p = (char *)a_realloc(b.p, b.sz + 5, ff, fl); nb.sz = b.sz + 5; nb.kind = K_DREALLOC; nb.pb = e->c.pb; nb.al = e->malloc_align(nb.sz); nb.file = ff; nb.line = fl;
        if (!nb.p) { viol("FAIL", "realloc failed"); continue; }
        e->write_pat(nb); e->live[e->n++] = nb; e->record_free(b);
      } else {
        int r; do r = (int)e->r.below(R_CHECK); while (!rel_exists(r) || rel_fam(r) != b.fam || r == R_REALLOC || r == R_DREALLOC);
        ff = FILES[e->r.below(NFILES)]; fl = e->pick_line(); fknown = rel_fl(r);
        e->drop(i);
        do_rel(r, b.p, ff, fl);
        e->record_free(b);
      }
      a = b.p;
      background(e->r.below(5));
    } else if (kind == 19) {
      if (!e->nfr) continue;
      a = (void *)e->fr[e->r.below(e->nfr)].p;
    }
    // the address may have come to life again, or be a block itself
    bool live = false;
    for (int j = 0; j < e->n; ++j) if (e->live[j].p == a) live = true;
    if (live || a == _duma_g.null_addr || (kind != 22 && a == (void *)_duma_g.allocList) || !a) continue;
    int r; do r = e->r.pct(15) ? (int)R_CHECK : (int)e->r.below(R_N); while (!rel_exists(r) || (r == R_USABLE && freed) || (kind == 22 && (r >= R_CHECK || r == R_REALLOC || r == R_DREALLOC)));
    const char *f = FILES[e->r.below(NFILES)]; int l = e->pick_line();
    Child &ch = in_child([&] { do_rel(r, a, f, l, e->r.range(1, 6000)); });
    ++judged;
    kase("bad address %s by %s, block %s", nm, rel_name(r), kind_name(k));
    bool moving = r == R_REALLOC || r == R_DREALLOC;
    if (!aborted(ch)) { viol("RELEASE", "%s of %s %p was not stopped with a message: %s %.200s", rel_name(r), nm, a, ended(ch), ch.out); continue; }
    if (kind == 22) { if (!has(ch, "Free mismatch: allocator '")) viol("RELEASE", "%s of %s is reported as: %.300s", rel_name(r), nm, ch.out); continue; }
    if (!has(ch, hex(a)) ) viol("RELEASE", "report of %s on %s does not name the address %p: %.300s", rel_name(r), nm, a, ch.out);
    const char *fn = r == R_CHECK ? "check(" : r == R_USABLE ? "malloc_usable_size(" : moving ? "realloc(" : "free(";
    if (!has(ch, fn) && !(moving && has(ch, "free("))) viol("RELEASE", "report of %s on %s does not name the function: %.300s", rel_name(r), nm, ch.out);
    if (!has(ch, "address not from") && !has(ch, "already freed")) viol("RELEASE", "report of %s on %s does not tell what is wrong: %.300s", rel_name(r), nm, ch.out);
    if ((kind == 0 || kind == 2) && (r == R_CHECK || (r < R_CHECK && !moving))) {
      // inside of a live block: which one
      if (!has(ch, hex(b.p))) viol("RELEASE", "report of %s on %s does not name the block at %p: %.300s", rel_name(r), nm, b.p, ch.out);
#if HAVE_FL
      char s[400];
      if (b.line) { snprintf(s, sizeof s, "allocated from %s(%d)", b.file, b.line); if (!has(ch, s)) viol("RELEASE", "report of %s on %s lacks '%s': %.300s", rel_name(r), nm, s, ch.out); }
#endif
    }
    if (freed && kind != 19 && e->reissue_forbidden()) {
      if (!has(ch, "already freed")) viol("RELEASE", "double %s of %p: %.300s", rel_name(r), a, ch.out);
#if HAVE_FL
      char s[400];
      if (fknown) { snprintf(s, sizeof s, "already freed at %s(%d)", ff, fl); if (!has(ch, s)) viol("RELEASE", "report of a double release lacks '%s': %.300s", s, ch.out); }
      else if (b.line) { snprintf(s, sizeof s, "already freed; allocated from %s(%d)", b.file, b.line); if (!has(ch, s)) viol("RELEASE", "report of a double release lacks '%s': %.300s", s, ch.out); }
#endif
    }
    if (e->r.pct(70) && e->n) e->do_free();
  }
  // what must never be reported
  for (int r = 0; r < R_N; ++r) {
    if (!rel_exists(r)) continue;
    for (int w = 0; w < 2; ++w) {
      void *p = w ? _duma_g.null_addr : (void *)0;
      Child &ch = in_child([&] { do_rel(r, p, "null.c", 5); do_rel(r, p, "null.c", 6); a_free(a_malloc(1, "x.c", 1), "x.c", 2); });
      ++judged;
      kase("harmless %s of %s", rel_name(r), w ? "shared zero" : "null");
      // realloc(p, 0) of nothing is a zero-size request
      if (!w && (r == R_REALLOC0 || r == R_DREALLOC0) && E->c.m0 == 0) { if (!aborted(ch)) viol("RELEASE", "realloc(0, 0) with strategy 0: %s", ended(ch)); continue; }
      if (!exited(ch) || ch.n) viol("RELEASE", "%s of %s: %s %.300s", rel_name(r), w ? "the shared zero-size address" : "null", ended(ch), ch.out);
    }
  }
}
// ------------------------------------------------------------------ A07
static void align_cases(long cases) {
  Engine *e = E;
  for (long c = 0; c < cases; ++c) {
    background(e->r.below(5));
    size_t al;
    switch (e->r.below(4)) {
    case 0: al = e->r.range(3, 100); break;
    case 1: al = ((size_t)1 << e->r.range(2, 30)) + 1; break;
    case 2: al = ((size_t)1 << e->r.range(3, 40)) - 1; break;
    default: al = ((size_t)1 << e->r.range(8, 63)) + ((size_t)1 << e->r.range(1, 7)); break;
    }
    if ((al & (al - 1)) == 0) al = 12;
    size_t sz = e->r.pct(10) ? 0 : e->r.range(1, 9000);
    if (sz == 0 && e->c.m0 != 3) sz = 1;   // strategies decide first
    int w = (int)e->r.below(4);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
    if (w < 2) w = 2;
#endif
    Child &ch = in_child([&] {
      void *volatile p = 0;
      switch (w) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
      case 0: p = memalign(al, sz); break;
      case 1: p = aligned_alloc(al, sz); break;
#endif
      case 2: p = a_memalign(al, sz, "src/odd.c", 815); break;
      case 3: p = a_allocate(al, sz, (int)e->r.below(2), -1, EFA_MEMALIGN, DUMA_FAIL_ENV, "src/odd.c", 815); break;
      }
    });
    ++judged;
    kase("odd alignment way %d, %zu", w, al & 0xffff);
    if (sz == 0 && exited(ch)) continue;
    if (!aborted(ch)) { viol("ALIGN", "alignment %zu (size %zu, way %d) was not refused with a message: %s", al, sz, w, ended(ch)); continue; }
    char s[100]; snprintf(s, sizeof s, "%zu", al);
    if (!has(ch, "lignment") || !has(ch, s)) viol("ALIGN", "report of alignment %zu: %.300s", al, ch.out);
#if HAVE_FL
    if (w >= 2 && !has(ch, "src/odd.c(815)")) viol("ALIGN", "report of alignment %zu lacks the position: %.300s", al, ch.out);
#endif
  }
}
// ------------------------------------------------------------------ A08, strategy 0
// blocks of many megabytes up to some gigabytes: nothing of them is touched but their ends
static void slack_huge(long cases) {
  Engine *e = E;
  for (long c = 0; c < cases; ++c) {
    size_t sz = ((size_t)1 << e->r.range(16, 33)) + e->r.range(1, 9000);
    int k = (int)e->r.below(3), pb = (int)e->c.pb;
    snprintf(e->what, sizeof e->what, "block of %zu bytes", sz);
    char *p = (char *)(k == 0 ? a_malloc(sz, "h.c", 71) : k == 1 ? a_realloc(0, sz, "h.c", 71) : a_memalign((size_t)1 << e->r.range(0, 11), sz, "h.c", 71));
    if (!p) continue;
    uintptr_t a = (uintptr_t)p, lo = pb ? a : rdn(a), hi = rup(a + sz);
    if (a - lo || hi - a - sz) {
      bool dn = a - lo && (hi == a + sz || e->r.pct(50));
      char *at = dn ? (char *)lo + e->r.below(a - lo) : p + sz + e->r.below(hi - a - sz);
      int way = (int)e->r.below(e->c.check_freq > 0 ? 5 : 4);
      Child &ch = in_child([&] {
        *at ^= 0x41;
        if (way == 0) a_free(p, "f.c", 1);
        else if (way == 1) DUMA_CHECK(p);
        else if (way == 2) DUMA_CHECKALL();
        else if (way == 3) { void *q = a_realloc(p, 10, "f.c", 1); (void)q; }
        else for (long q = 0; q < e->c.check_freq; ++q) { void *x = a_malloc(10, "f.c", 1); (void)x; }
      });
      ++judged;
      kase("huge slack 2^%d pb%d %s way%d", 63 - __builtin_clzl(sz), pb, dn ? "below" : "above", way);
      if (!aborted(ch) || !has(ch, "no mans land") || !has(ch, hex(p)))
        viol("SLACK", "byte %s a %zu-byte block changed: way %d to find it gives %s, %.300s", dn ? "below" : "above", sz, way, ended(ch), ch.out);
    }
    a_free(p, "h.c", 72);
  }
}
static void zero_cases(long rounds) {
  Engine *e = E;
  for (long c = 0; c < rounds; ++c)
    for (int k = 0; k < K_N; ++k) {
      if (!exists(k) || k == K_STRDUP || k == K_DSTRDUP) continue;
      background(e->r.below(5));
      if (kind_fam(k) != F_C || e->c.m0 != 0) continue;
      Child &ch = in_child([&] {
        void *volatile p = 0; void *q = 0;
        switch (k) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
        case K_MALLOC: p = malloc(0); break;
        case K_CALLOC: p = c & 1 ? calloc(0, 7) : calloc(9, 0); break;
        case K_MEMALIGN: p = memalign(64, 0); break;
        case K_PMEMALIGN: posix_memalign(&q, 64, 0); break;
        case K_VALLOC: p = valloc(0); break;
        case K_ALIGNED: p = aligned_alloc(32, 0); break;
        case K_PVALLOC: p = pvalloc(0); break;
        case K_REALLOC0: p = realloc(0, 0); break;
#endif
        case K_DMALLOC: p = a_malloc(0, "zero.c", 1); break;
        case K_DCALLOC: p = c & 1 ? a_calloc(0, 7, "zero.c", 1) : a_calloc(9, 0, "zero.c", 1); break;
        case K_DMEMALIGN: p = a_memalign(64, 0, "zero.c", 1); break;
        case K_DPMEMALIGN: a_posix_memalign(&q, 64, 0, "zero.c", 1); break;
        case K_DVALLOC: p = a_valloc(0, "zero.c", 1); break;
        case K_DREALLOC0: p = a_realloc(0, 0, "zero.c", 1); break;
        case K_XC: p = a_allocate(0, 0, 0, -1, EFA_MALLOC, DUMA_FAIL_ENV, "zero.c", 1); break;
        }
      });
      ++judged;
      kase("zero strategy 0 %s", kind_name(k));
      if (!aborted(ch) || !has(ch, "0 bytes")) viol("ZERO", "%s(0) with strategy 0: %s %.200s", kind_name(k), ended(ch), ch.out);
#if HAVE_FL
      else if (kind_has_fl(k) && !has(ch, "zero.c(1)")) viol("ZERO", "%s(0) with strategy 0 lacks the position: %.300s", kind_name(k), ch.out);
#endif
    }
}
// real accesses to zero-size blocks die, whatever their kind
static void zero_access_cases(long rounds) {
  Engine *e = E;
  for (long c = 0; c < rounds; ++c)
    for (int k = 0; k < K_N; ++k) {
      if (!exists(k) || k == K_STRDUP || k == K_DSTRDUP || e->strategy(k) < 2) continue;
      int i = e->do_alloc(k, 0);
      background(e->r.below(8));
      if (i < 0 || i >= e->n || !e->live[i].zero) continue;
      Blk b = e->live[i];
      int w = (int)e->r.below(4);
      Child &ch = in_child([&] {
        signal(SIGSEGV, SIG_DFL);
        volatile char *p = b.p;
        if (w == 0) { char x = *p; (void)x; } else if (w == 1) *p = 1; else if (w == 2) { char x = p[-1]; (void)x; } else p[1] = 2;
      });
      ++judged;
      kase("access to zero-size block of %s way %d", kind_name(k), w);
      if (!killed(ch, SIGSEGV)) viol("ZERO", "access way %d to the zero-size block of %s: %s", w, kind_name(k), ended(ch));
    }
}
// ------------------------------------------------------------------ A09 with DUMA_MALLOC_FAILEXIT=1
static void fail_cases(long cases) {
  Engine *e = E;
  for (long c = 0; c < cases; ++c) {
    background(e->r.below(5));
    size_t sz;
    switch (e->r.below(4)) {
    case 0: sz = (size_t)0 - e->r.range(1, 3 << 20); break;
    case 1: sz = (size_t)1 << e->r.range(48, 63); break;
    case 2: sz = ((size_t)-1 / 2) + e->r.range(0, 9000) - 4500; break;
    default: sz = ((size_t)1 << 47) + e->r.range(0, 1u << 30); break;
    }
    int w = (int)e->r.below(16);
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
    if (w < 8) w = 8;
#endif
    size_t a = e->r.range(2, 1u << 24), b2 = (size_t)-1 / a + 1 + e->r.below(5);
    Blk o; o.p = 0;
    for (int j = 0; j < e->n; ++j) if (e->live[j].fam == F_C && !e->live[j].zero) o = e->live[j];
    if ((w == 6 || w == 13) && !o.p) continue;
    Child &ch = in_child([&] {
      void *q = 0; void *volatile p = 0;
      switch (w) {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
      case 0: p = malloc(sz); break;
      case 1: p = calloc(a, b2); break;
      case 2: p = calloc(sz, 1); break;
      case 3: p = memalign((size_t)1 << e->r.range(0, 20), sz); break;
      case 4: posix_memalign(&q, 64, sz); p = q; break;
      case 5: p = valloc(sz); break;
      case 6: p = realloc(o.p, sz); break;
      case 7: p = e->r.pct(50) ? aligned_alloc(64, sz) : pvalloc(sz); break;
#endif
      case 8: p = a_malloc(sz, "big.c", 8); break;
      case 9: p = a_calloc(b2, a, "big.c", 9); break;
      case 10: p = a_memalign((size_t)1 << e->r.range(0, 20), sz, "big.c", 10); break;
      case 11: a_posix_memalign(&q, 4096, sz, "big.c", 11); p = q; break;
      case 12: p = a_valloc(sz, "big.c", 12); break;
      case 13: p = a_realloc(o.p, sz, "big.c", 13); break;
      case 14: p = a_realloc(0, sz, "big.c", 14); break;
      case 15: p = a_memalign((size_t)1 << e->r.range(46, 63), e->r.range(1, 9000), "big.c", 15); break;
      }
      if (p) _exit(55);
      _exit(56);
    });
    ++judged;
    kase("refused with failexit way %d, size class %d", w, (int)(sz >> 46));
    if (exited(ch, 55)) viol("FAIL", "request way %d of %zu bytes was answered with a block", w, sz);
    else if (!aborted(ch)) viol("FAIL", "request way %d of %zu bytes with DUMA_MALLOC_FAILEXIT: %s %.200s", w, sz, ended(ch), ch.out);
    else if (!has(ch, "failed")) viol("FAIL", "report of a refused request: %.300s", ch.out);
  }
}
int main() {
  install_probes();
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  a_free(a_malloc(10, "w.c", 1), "w.c", 2);
  E = new ((void *)mem) Engine(env_u("VT_SEED", 1));
  E->oddpct = 35;
  E->maxlive = (int)want("VT_LIVE", 40);
  E->bigpct = 0;
  E->zeropct = (int)want("VT_ZERO", 3);
  E->maxsz = 20000;
  foreign = (char *)mmap(0, 8 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  E->baseline();
  background(want("VT_BG", 60));
  slack_cases(want("VT_SLACK", 0));
  slack_huge(want("VT_SLACKHUGE", 0));
  mismatch_cases(want("VT_MISMATCH", 0));
  if (want("VT_BAD", 0)) bad_address_cases(want("VT_BAD", 0));
  align_cases(want("VT_ODD", 0));
  zero_cases(want("VT_Z0", 0));
  zero_access_cases(want("VT_ZACC", 0));
  fail_cases(want("VT_FAILS", 0));
  // the parent's heap has seen nothing of it
  E->finish();
  stat_("judged %ld", judged);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
