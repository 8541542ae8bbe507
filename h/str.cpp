// memcpy and friends: results against reference code at guard pages (MEM), reports of overlaps (OVERLAP).
#include <initializer_list>
#include "vh.h"
#include "api.h"
extern "C" {
const char *m_file(void);
void *m_memcpy(void *, const void *, size_t, int *);
void *m_memmove(void *, const void *, size_t, int *);
char *m_strcpy(char *, const char *, int *);
char *m_strncpy(char *, const char *, size_t, int *);
char *m_strcat(char *, const char *, int *);
char *m_strncat(char *, const char *, size_t, int *);
char *m_strdup(const char *, int *);
}
enum Fn { MEMCPY, MEMMOVE, STRCPY, STRNCPY, STRCAT, STRNCAT, STRDUP, NFN };
static const char *const NAME[] = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat", "strdup"};
enum How { PLAIN, DIRECT, MACRO };
static char what[300];
static void ctx(char *b, size_t n) { snprintf(b, n, "%s", what); }
static int curline; static const char *curfile;
static void *invoke(int f, int how, char *d, const char *s, size_t n) {
  curfile = "some dir/str.cxx"; curline = 4711;
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE
  if (how == PLAIN) how = DIRECT;
#else
  if (how == PLAIN) {
    curfile = "UNKNOWN (use #include \"duma.h\")"; curline = 0;
    switch (f) {
    case MEMCPY: return memcpy(d, s, n);
    case MEMMOVE: return memmove(d, s, n);
    case STRCPY: return strcpy(d, s);
    case STRNCPY: return strncpy(d, s, n);
    case STRCAT: return strcat(d, s);
    case STRNCAT: return strncat(d, s, n);
    default: return strdup(s);
    }
  }
#endif
  if (how == DIRECT) switch (f) {
    case MEMCPY: return a_memcpy(d, s, n, curfile, curline);
    case MEMMOVE: return _duma_memmove(d, s, n);
    case STRCPY: return a_strcpy(d, s, curfile, curline);
    case STRNCPY: return a_strncpy(d, s, n, curfile, curline);
    case STRCAT: return a_strcat(d, s, curfile, curline);
    case STRNCAT: return a_strncat(d, s, n, curfile, curline);
    default: return a_strdup(s, curfile, curline);
  }
  curfile = m_file();
#if !HAVE_FL
  curfile = "";   // libc's names: no position
#endif
  switch (f) {
  case MEMCPY: return m_memcpy(d, s, n, &curline);
  case MEMMOVE: return m_memmove(d, s, n, &curline);
  case STRCPY: return m_strcpy(d, s, &curline);
  case STRNCPY: return m_strncpy(d, s, n, &curline);
  case STRCAT: return m_strcat(d, s, &curline);
  case STRNCAT: return m_strncat(d, s, n, &curline);
  default: return m_strdup(s, &curline);
  }
}
static size_t slen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
static size_t snlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
// an arena of pages between guard pages
struct Arena {
  char *a; size_t pages, n; char *img; 
  void make(size_t p) {
    pages = p; n = p * PG;
    char *m = (char *)mmap(0, n + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    a = m + PG; mprotect(a, n, PROT_READ | PROT_WRITE);
    img = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  void fill(Rng &r) { for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); for (size_t j = 0; j < 8; ++j) a[i + j] = img[i + j] = (char)(v >> (8 * j)); } }
  void set(size_t i, char c) { a[i] = img[i] = c; }
  long diff() { for (size_t i = 0; i < n; ++i) if (a[i] != img[i]) return (long)i; return -1; }
};
static long calls = 0, reports = 0, silent = 0, tolerated = 0, huge = 0;
static Rng R;

// ------------------------------------------------------------ results
static size_t some_len() {
  switch (R.below(8)) {
  case 0: return R.below(4);
  case 1: case 2: return R.below(40);
  case 3: return R.below(300);
  case 4: return PG - 12 + R.below(24);
  case 5: return 2 * PG - 12 + R.below(24);
  default: return R.below(2 * PG);
  }
}
static size_t place(size_t need, size_t n) {     // at the end, at the start, anywhere
  switch (R.below(5)) {
  case 0: case 1: return n - need;
  case 2: return 0;
  default: return R.below(n - need + 1);
  }
}
static void trial_result(Arena &S, Arena &D) {
  int f = (int)R.below(NFN), how = (int)R.below(3);
  Arena *A = &D;
  S.fill(R); D.fill(R);
  size_t len = some_len(), n = 0, so = 0, d = 0, wlen = 0, dl = 0;   // wlen bytes at D+d(+dl) are written
  const char *src; char *dst;
  bool ro = R.pct(50);
  switch (f) {
  case MEMCPY: {
    n = len; so = place(n, S.n); d = place(n, D.n); src = S.a + so; dst = D.a + d;
    if (R.pct(15) && n && 2 * n <= S.n) { // same arena, touching
      A = &S; ro = false; so = place(2 * n, S.n); if (R.pct(50)) { d = so + n; } else { d = so; so += n; }
      src = S.a + so; dst = S.a + d;
    }
    char *i = A->img; for (size_t k = 0; k < n; ++k) i[d + k] = S.img[so + k];
    break; }
  case MEMMOVE: {
    n = len;
    if (R.pct(70)) { A = &S; ro = false; }
    so = place(n, S.n);
    if (A == &S && R.pct(60)) { long o = (long)R.below(n < 20 ? 40 : 2 * n) - (long)(n < 20 ? 20 : n); long t = (long)so + o; if (t < 0) t = 0; if (t + n > A->n) t = (long)(A->n - n); d = (size_t)t; }
    else d = place(n, A->n);
    src = S.a + so; dst = A->a + d;
    static char tmp[1 << 16];
    for (size_t k = 0; k < n; ++k) tmp[k] = S.img[so + k];
    for (size_t k = 0; k < n; ++k) A->img[d + k] = tmp[k];
    break; }
  case STRCPY: case STRCAT: case STRDUP: {
    so = place(len + 1, S.n);
    for (size_t k = 0; k < len; ++k) if (!S.a[so + k]) S.set(so + k, (char)(128 + R.below(128)));
    S.set(so + len, 0);
    if (f == STRCAT) dl = some_len();
    wlen = len + 1;
    if (dl + wlen > D.n) dl = 0;
    d = place(dl + wlen, D.n);
    for (size_t k = 0; k < dl; ++k) if (!D.a[d + k]) D.set(d + k, 'x');
    if (f == STRCAT) D.set(d + dl, 0);
    src = S.a + so; dst = D.a + d;
    if (f != STRDUP) for (size_t k = 0; k < wlen; ++k) D.img[d + dl + k] = S.img[so + k];
    break; }
  default: { // n-variants
    n = R.pct(30) ? len + R.below(5) : R.pct(50) ? len : len + some_len();
    if (R.pct(30) && n) n = R.below(n + 1);
    if (n > 3 * PG) n = 3 * PG;
    size_t rd = n <= len ? n : len + 1;       // bytes that may be read
    so = place(rd, S.n);
    for (size_t k = 0; k < rd; ++k) if (!S.a[so + k]) S.set(so + k, (char)(128 + R.below(128)));
    if (n > len) S.set(so + len, 0);
    size_t cp = n < len ? n : len;
    if (f == STRNCAT) { dl = some_len(); wlen = cp + 1; } else wlen = n;
    if (dl + wlen > D.n) dl = 0;
    d = place(dl + wlen, D.n);
    for (size_t k = 0; k < dl; ++k) if (!D.a[d + k]) D.set(d + k, 'x');
    if (f == STRNCAT) D.set(d + dl, 0);
    src = S.a + so; dst = D.a + d;
    for (size_t k = 0; k < wlen; ++k) D.img[d + dl + k] = k < cp ? S.img[so + k] : 0;
    // nothing may be read or written for a size of 0
    if (f == STRNCPY && n == 0 && R.pct(50)) { src = S.a - 1; dst = D.a + D.n; so = 0; }
    if (f == STRNCAT && n == 0 && R.pct(50)) src = S.a + S.n;
    break; }
  }
  if (f == MEMCPY && n == 0 && R.pct(50)) { src = S.a + S.n; dst = D.a - 1; }
  if (f == MEMMOVE && n == 0 && R.pct(50)) { src = S.a + S.n; dst = D.a - 1; }
  if (ro) mprotect(S.a, S.n, PROT_READ);
  snprintf(what, sizeof what, "%s how %d, length %zu, n %zu, source at %zu of %zu%s, destination at %zu+%zu of %zu", NAME[f], how, len, n, so, S.n, ro ? " (read-only)" : "", d, dl, A->n);
  ++calls;
  void *ret = 0; int sig = 0;
  if (sigsetjmp(vt_jb, 0)) sig = vt_sig;
  else { vt_armed = 1; ret = invoke(f, how, dst, src, n); vt_armed = 0; }
  if (ro) mprotect(S.a, S.n, PROT_READ | PROT_WRITE);
  if (sig) {
    long off = (long)(vt_addr - (uintptr_t)S.a), od = (long)(vt_addr - (uintptr_t)A->a);
    viol("MEM", "%s: signal %d, an access outside of the arguments (source%+ld, destination%+ld) or a report", NAME[f], sig, off - (long)so, od - (long)d);
    return;
  }
  if (f == STRDUP) {
    char *p = (char *)ret;
    for (size_t k = 0; k <= len; ++k) if (p[k] != S.img[so + k]) { viol("MEM", "strdup: byte %zu is %02x", k, (u8)p[k]); break; }
    if (a_usable(p) != len + 1) viol("MEM", "strdup of %zu characters gives %zu bytes", len, a_usable(p));
    a_free(p, "x", 1);
  } else if (ret != dst) viol("MEM", "%s returns %p for %p", NAME[f], ret, dst);
  long k = D.diff();
  if (k >= 0) viol("MEM", "%s: byte %+ld of the destination is %02x instead of %02x", NAME[f], k - (long)d, (u8)D.a[k], (u8)D.img[k]);
  k = S.diff();
  if (k >= 0) viol("MEM", "%s: byte %+ld of the source is %02x instead of %02x", NAME[f], k - (long)so, (u8)S.a[k], (u8)S.img[k]);
  situation(mix(mix(f, how), mix(mix(len < 40 ? len : 40 + (len >> 8), so + len >= S.n - 1 ? 1 : so == 0 ? 2 : 3), mix(n < len ? 1 : n == len ? 2 : 3, d == 0 ? 1 : d + wlen + dl + (f < 2 ? n : 0) == A->n ? 2 : 3))));
}

// ------------------------------------------------------------ overlaps
static int cap = -1;
static char text[4000];
static void load() {
  ssize_t k = pread(cap, text, sizeof text - 1, 0);
  text[k > 0 ? k : 0] = 0;
  if (k > 0) { if (ftruncate(cap, 0)) {} lseek(cap, 0, SEEK_SET); }
}
enum { SILENT, REPORT, EITHER };
static bool disj(const char *a, size_t n, const char *b, size_t m) { return n == 0 || m == 0 || a + n <= b || b + m <= a; }
static bool mc_overlap;
static int expect(int f, const char *d, const char *s, size_t n) {
  switch (f) {
  case MEMMOVE: return SILENT;
  case MEMCPY:
    if (disj(d, n, s, n)) return SILENT;
    if (d == s) return EITHER;
    return d < s && mc_overlap ? SILENT : REPORT;
  case STRCPY: { size_t m = slen(s) + 1; if (disj(d, m, s, m)) return SILENT; return s < d ? REPORT : EITHER; }
  case STRNCPY: { size_t m = snlen(s, n); if (m < n) ++m; if (disj(d, n, s, m)) return SILENT; return d == s ? EITHER : REPORT; }
  case STRCAT: { const char *e = d + slen(d); size_t m = slen(s) + 1; if (disj(e, m, s, m)) return SILENT; return s < e && e < s + m ? REPORT : EITHER; }
  case STRNCAT: {
    if (!n) return SILENT;
    const char *e = d + slen(d); size_t c = snlen(s, n), m = c < n ? c + 1 : c;
    if (e == s + c) return c == n || c == 0 ? EITHER : REPORT;      // the terminators coincide
    if (disj(e, c + 1, s, m)) return SILENT;
    return s < e && e < s + m ? REPORT : EITHER; }
  }
  return EITHER;
}
static void check_text(int f, const char *d, const char *s, size_t n) {
  char a[700];
  bool sized = f == MEMCPY || f == STRNCPY || f == STRNCAT;
  int k = snprintf(a, sizeof a, "\nDUMA Aborting: %s(%lx, %lx", NAME[f], (unsigned long)d, (unsigned long)s);
  if (sized) k += snprintf(a + k, sizeof a - k, ", %zu", n);
  k += snprintf(a + k, sizeof a - k, "): memory regions overlap");
#if HAVE_FL
  k += snprintf(a + k, sizeof a - k, " at %s(%d)", curfile, curline);
#endif
  snprintf(a + k, sizeof a - k, ".\n");
  if (!xeq(a, text)) viol("OVERLAP", "%s: message is '%.300s' instead of '%.300s'", NAME[f], text, a);
}
// returns true when reported
static void trial_overlap(int f, int how, char *arena, size_t na, char *d, const char *s, size_t n, bool child) {
  static char before[20000];
  int ex = expect(f, d, s, n);
  snprintf(what, sizeof what, "%s how %d, destination at %ld, source at %ld, n %zu, strlen(src) %ld", NAME[f], how, (long)(d - arena), (long)(s - arena), n, f >= STRCPY ? (long)snlen(s, na - (s - arena)) : -1);
  for (size_t i = 0; i < na; ++i) before[i] = arena[i];
  ++calls;
  if (child) {
    Child &c = in_child([&] { signal(SIGILL, SIG_DFL); invoke(f, how, d, s, n); });
    if (ex == REPORT && !aborted(c)) viol("OVERLAP", "%s: overlapping call ends with status %x: %.200s", NAME[f], c.status, c.out);
    if (ex == SILENT && (!exited(c) || c.n)) viol("OVERLAP", "%s: legal call ends with status %x: %.200s", NAME[f], c.status, c.out);
    return;
  }
  volatile int sig = 0;
  if (sigsetjmp(vt_jb, 0)) sig = vt_sig;
  else { vt_armed = 1; invoke(f, how, d, s, n); vt_armed = 0; }
  load();
  if (sig == SIGILL) {
    if (ex == SILENT) viol("OVERLAP", "%s: legal call is reported: %.200s", NAME[f], text);
    for (size_t i = 0; i < na; ++i) if (arena[i] != before[i]) { viol("OVERLAP", "%s: byte %zu was changed before the report", NAME[f], i); break; }
    check_text(f, d, s, n);
    ++reports;
  } else if (sig) viol("OVERLAP", "%s: signal %d", NAME[f], sig);
  else {
    if (ex == REPORT) viol("OVERLAP", "%s: overlapping call is not reported", NAME[f]);
    if (text[0]) viol("OVERLAP", "%s prints %.200s", NAME[f], text);
    ++silent;
  }
  if (ex == EITHER) ++tolerated;
  if (sig == 0 && ex == SILENT && f >= STRCPY) { // the result
    const char *e = f == STRCAT || f == STRNCAT ? before + (d - arena) + slen(before + (d - arena)) : before + (d - arena);
    const char *bs = before + (s - arena);
    size_t sl = f == STRNCPY || f == STRNCAT ? snlen(bs, n) : slen(bs);
    size_t w = f == STRNCPY ? n : (f == STRNCAT && !n) ? 0 : sl + 1;
    size_t o = e - before;
    for (size_t i = 0; i < na; ++i) {
      char want = i >= o && i < o + w ? (i - o < sl ? bs[i - o] : 0) : before[i];
      if (arena[i] != want) { viol("MEM", "%s: byte %ld is %02x instead of %02x", NAME[f], (long)(arena + i - d), (u8)arena[i], (u8)want); break; }
    }
  }
  for (size_t i = 0; i < na; ++i) arena[i] = before[i];
  situation(mix(mix(mix(f, how), mix(mc_overlap, ex)), mix((u64)(d - s) < 64 || (u64)(s - d) < 64 ? (u64)(d - s + 100) : 5, n < 64 ? n : 64)));
}
static void enumerate_mem(Arena &A, long part, long parts) {
  long i = 0;
  char *c = A.a + 400;
  for (int f : {MEMCPY, MEMMOVE}) for (int how = 0; how < 3; ++how) for (size_t n = 0; n <= 36; ++n) for (long o = -40; o <= 40; ++o) {
    if (i++ % parts != part) continue;
    trial_overlap(f, how, A.a, 800, c + o, c, n, R.below(300) == 0);
  }
  // long regions: around the borders
  for (int f : {MEMCPY, STRNCPY}) for (size_t n : {(size_t)255, (size_t)256, (size_t)4096, (size_t)5000}) for (long o : {-(long)n - 1, -(long)n, 1 - (long)n, -1L, 1L, (long)n - 1, (long)n, (long)n + 1}) {
    if (i++ % parts != part) continue;
    for (size_t k = 0; k < 16000; ++k) A.a[k] = (char)R.range(1, 255);
    trial_overlap(f, (int)R.below(3), A.a, 16000, A.a + 6000 + o, A.a + 6000, n, false);
  }
}
static void random_str(Arena &A) {
  size_t na = 24 + R.below(60);
  int f = STRCPY + (int)R.below(4), how = (int)R.below(3);
  char *a = A.a;
  int zp = 2 + (int)R.below(25);
  for (size_t i = 0; i < 400; ++i) a[i] = R.pct(zp) ? 0 : (char)R.range(1, 255);
  a[na] = 0; a[390] = 0;
  size_t s = R.below(na), d = R.pct(60) ? s + R.below(40) : R.below(na);
  if (R.pct(30) && d >= 20) d -= 20;
  size_t n = R.below(R.pct(50) ? 12 : 50);
  if (R.pct(20)) n = snlen(a + s, 300) + R.below(3) - 1; if (n > 300) n = 0;
  if (d > na) d = na;
  // dests whose string is the source's, too
  trial_overlap(f, how, a, 400, a + d, a + s, n, R.below(400) == 0);
}
// sizes beyond 32 bits; nothing is copied, all of it is inaccessible
static void huge_sizes() {
  const size_t T = (size_t)1 << 35;
  char *m = (char *)mmap(0, 3 * T, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return;
  char *s = m + T;
  for (int how = 0; how < 3; ++how) for (int b = 31; b <= 34; ++b) for (long e = -2; e <= 2; ++e) for (int back = 0; back < 2; ++back) for (int k = 0; k < 5; ++k) {
    size_t n = ((size_t)1 << b) + e;
    long off = k == 0 ? (long)n : k == 1 ? (long)n - 1 : k == 2 ? (long)((size_t)1 << 31) : k == 3 ? (long)n + 5 : 1;
    if (off > (long)n + 5) continue;
    char *d = back ? s - off : s + off;
    int ex = expect(MEMCPY, d, s, n);
    snprintf(what, sizeof what, "memcpy of %zu bytes, destination at source%+ld", n, (long)(d - s));
    volatile int sig = 0;
    if (sigsetjmp(vt_jb, 0)) sig = vt_sig;
    else { vt_armed = 1; invoke(MEMCPY, how, d, s, n); vt_armed = 0; }
    load();
    ++huge; ++calls;
    if (ex == REPORT) { if (sig != SIGILL) viol("OVERLAP", "memcpy: overlapping call is not reported"); else check_text(MEMCPY, d, s, n); }
    else if (sig != SIGSEGV || text[0]) viol("OVERLAP", "memcpy: legal call gives signal %d, %.200s", sig, text);
    situation(mix(mix(99, how), mix(n, off + back)));
  }
  munmap(m, 3 * T);
}
// really copies more than 4 GB, on aliased pages: both sides repeat one window, only their last windows are their own
static void huge_copy(int f) {
  const size_t W = 64 << 20, N = ((size_t)1 << 32) + 3 * W, last = N - W, L = last + 100;
  char *m[2];
  for (int k = 0; k < 2; ++k) {
    int fd = memfd_create("d", 0);
    if (ftruncate(fd, W)) return;
    char *p = m[k] = (char *)mmap(0, N + W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    for (size_t i = 0; i < last; i += W) if (mmap(p + i, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return;
    if (mmap(p + last, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return;
    for (size_t i = 0; i < W; ++i) p[i] = k ? 'd' : 's';
    for (size_t i = 0; i < 200; ++i) p[last + i] = (char)(k ? 'D' : 'a' + i % 26);
    close(fd);
  }
  if (env_i("VT_SWAP", R.pct(50)) != (m[0] < m[1])) { char *t = m[0]; m[0] = m[1]; m[1] = t; for (size_t i = 0; i < 200; ++i) { m[0][last + i] = (char)('a' + i % 26); m[1][last + i] = 'D'; } }     // either may be above the other
  char *s = m[0], *d = m[1];
  size_t n = L, w = L, at = 0;      // n: the argument; w bytes are written from d+at on
  bool longdest = false;
  switch (f) {
  case STRCPY: s[L] = 0; w = L + 1; break;
  case STRNCPY: if (R.pct(50)) { s[5] = 0; longdest = true; } break;      // padding, a short string; else all of it
  case STRCAT: case STRNCAT:
    if (R.pct(50)) { s[40] = 0; d[L] = 0; at = L; w = 41; longdest = true; n = R.pct(50) ? 40 : N; }    // appended behind 4 GB
    else { d[0] = 0; w = L + 1; if (f == STRCAT) s[L] = 0; }
    break;
  }
  snprintf(what, sizeof what, "%s of %zu bytes%s", NAME[f], L, longdest ? ", short source" : "");
  void *r = invoke(f, (int)R.below(3), d, s, n);
  bool ok = r == d;
  for (size_t i = 0; ok && i < 200; ++i) {
    size_t p = last + i;
    char c = (char)('D');
    if (p >= at && p < at + w) {
      size_t q = p - at;
      c = (f == STRNCPY && longdest) ? 0 : q == w - 1 && (f == STRCPY || f == STRCAT || f == STRNCAT) ? 0 : s[q];
    } else if (longdest && at && p < at) c = 'D';
    if (d[p] != c) { viol("MEM", "%s of %zu bytes: byte %zu is %d, not %d", what, w, p, d[p], c); ok = true; break; }
  }
  if (r != d) viol("MEM", "%s: returns %p, not %p", what, r, (void *)d);
  load();
  if (text[0]) viol("MEM", "%s: prints %.200s", what, text);
  ++huge; ++calls;
  situation(mix(98, mix(f, longdest)));
  munmap(m[0], N + W); munmap(m[1], N + W);
}
// overlapping regions more than 2 GB apart
static void huge_move(bool up, size_t D) {
  const size_t E = 8192, n = D + E;
  char *m = (char *)mmap(0, D + n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return;
  char *s = up ? m : m + D, *d = up ? m + D : m;
  for (size_t i = 0; i < E; ++i) { s[i] = (char)('a' + i % 23); s[D + i] = (char)('A' + i % 19); }
  snprintf(what, sizeof what, "memmove of %zu bytes by %s%zu", n, up ? "+" : "-", D);
  void *r = invoke(MEMMOVE, (int)R.below(3), d, s, n);
  if (r != d) viol("MEM", "returns %p, not %p", r, (void *)d);
  for (size_t i = 0; i < E; ++i) {
    if (d[i] != (char)('a' + i % 23)) { viol("MEM", "byte %zu is %d", i, d[i]); break; }
    if (d[D + i] != (char)('A' + i % 19)) { viol("MEM", "byte %zu is %d", D + i, d[D + i]); break; }
  }
  load();
  if (text[0]) viol("MEM", "prints %.200s", text);
  ++huge; ++calls;
  situation(mix(97, mix(up, D)));
  munmap(m, D + n);
}
int main() {
  install_probes();
  struct sigaction sa; sigaction(SIGSEGV, 0, &sa); sigaction(SIGILL, &sa, 0);
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  vt_context = ctx;
  R = Rng(env_u("VT_SEED", 1));
  mc_overlap = env_i("DUMA_MEMCPY_OVERLAP", 0) != 0;
  cap = memfd_create("err", 0);
  dup2(cap, 2);
  // the library's initialisation
  a_free(a_malloc(1, "x", 1), "x", 1);
  load(); text[0] = 0;
  Arena S, D, B;
  S.make(4); D.make(6); B.make(4);
  if (env_i("VT_BLOCKS", 0)) { // arenas on DUMA's own heap
    S.n = (size_t)R.range(3 * PG, 4 * PG); S.a = (char *)a_malloc(S.n, "x", 1); D.n = (size_t)R.range(5 * PG, 6 * PG); D.a = (char *)a_malloc(D.n, "x", 1);
  }
  long n = env_i("VT_RESULTS", 2000);
  bool blocks = env_i("VT_BLOCKS", 0) != 0;
  for (long i = 0; i < n && vt_viols < 5; ++i) {
    if (blocks) { size_t s = S.n & ~(size_t)7, d = D.n & ~(size_t)7; S.a += S.n - s; D.a += D.n - d; S.n = s; D.n = d; trial_result(S, D); }
    else trial_result(S, D);
    load();
    if (text[0]) { viol("MEM", "a legal call prints %.200s", text); break; }
  }
  B.fill(R);
  long parts = env_i("VT_PARTS", 0);
  if (parts) enumerate_mem(B, env_i("VT_PART", 0), parts);
  n = env_i("VT_OVERLAPS", 3000);
  for (long i = 0; i < n && vt_viols < 5; ++i) random_str(B);
  if (env_i("VT_HUGE", 0) == 1) huge_sizes();
  if (env_i("VT_HUGE", 0) >= 8) huge_move(env_i("VT_HUGE", 0) == 8, ((size_t)1 << 31) + (size_t)env_i("VT_MORE", 4096));
  else if (env_i("VT_HUGE", 0) > 1) huge_copy((int)env_i("VT_HUGE", 0) - 2);
  stat_("calls %ld", calls); stat_("reports %ld", reports); stat_("silent %ld", silent); stat_("tolerated %ld", tolerated); stat_("huge %ld", huge);
  situations_out();
  stat_("done 1");
  _exit(vt_viols ? 9 : 0);
}
