"""Random C/C++ programs that use DUMA's macros for asserts, checked arrays and return addresses."""
import random

HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <pthread.h>
#ifdef PLAIN
#define DUMA_ASSERT(E) ((void)0)
#define DUMA_CHECK(P) ((void)0)
#define DUMA_CHECKALL() ((void)0)
#define DUMA_newFrame() ((void)0)
#define DUMA_delFrame() ((void)0)
#define DUMA_SET_ALIGNMENT(V) ((void)0)
#define DUMA_SET_PROTECT_BELOW(V) ((void)0)
#define DUMA_SET_FILL(V) ((void)0)
#define DUMA_FN_PROT_START {
#define DUMA_FN_PROT_END }
#define DUMA_FN_PROT_RET(E) do { return (E); } while (0)
#define DUMA_FN_PROT_RET_VOID() do { return; } while (0)
#define CA_DECLARE(N, S) struct N##_unused
#define CA_DEFINE(T, N, S) T N[S]
#define CA_REF(N, I) N[I]
#else
#include "INC"
#endif
struct rec { unsigned x; unsigned char y[3]; };
static int mode;
static volatile int one = 1, zero = 0;
static void *volatile nul = 0;
static unsigned calls, ticks;
static unsigned idf(unsigned v) { ++calls; return v; }
static int yes(int v) { ++ticks; return v; }
static void missed(void) { _exit(55); }
static void smash(void *frame, int on) { if (on) ((void *volatile *)frame)[1] = (void *)(size_t)missed; }
static unsigned long H = 5381;
static void mix(unsigned long v) { H = (H ^ v) * 1099511628211UL + 7; H &= 0xffffffffffUL; }
#define FAIL(K) if (mode == (K) && (printf("F%d\n", K), fflush(stdout), 1))
'''

TAIL = r'''
static int shared[64];
CA_DECLARE(shared, 64);
static void *thr(void *a) {
  long me = (long)a, i, bad = 0;
  for (i = 0; i < 20000; ++i) { CA_REF(shared, me * 16 + i % 16) = (int)(me * 1000 + i); if (CA_REF(shared, me * 16 + i % 16) != me * 1000 + i) ++bad; }
  return (void *)bad;
}
static void threads(void) {
  pthread_t t[4]; void *r; long i, bad = 0;
  for (i = 0; i < 4; ++i) pthread_create(&t[i], 0, thr, (void *)i);
  for (i = 0; i < 4; ++i) { pthread_join(t[i], &r); bad += (long)r; }
  printf("threads %ld\n", bad);
}
int main(int c, char **v) {
  char *p;
  mode = c > 1 ? atoi(v[1]) : 0;
  DUMA_newFrame();
  DUMA_SET_ALIGNMENT(8); DUMA_SET_PROTECT_BELOW(0); DUMA_SET_FILL(3);
  p = (char *)malloc(20); strcpy(p, "x");
  if (one) DUMA_CHECK(p); else DUMA_CHECKALL();
  DUMA_CHECKALL();
  free(p);
  RUN
  if (mode == 0) threads();
  printf("H %lx calls %u\n", H, calls);
  fflush(stdout);
  fprintf(stderr, "TICKS %u\n", ticks);
  DUMA_delFrame();
  return 0;
}
'''

TYPES = ["unsigned", "unsigned char", "unsigned long", "struct rec", "double", "unsigned short"]


class Gen:
    def __init__(self, seed, inc):
        self.r = random.Random(seed)
        self.inc = inc
        self.out = []
        self.line = 1
        self.modes = []          # (mode, expression text or (array, index text), line, kind)
        self.nticks = 0
        self.weight = 1
        self.emit(HEAD.replace("INC", inc))

    def emit(self, s):
        self.out.append(s)
        self.line += s.count("\n") + 1

    # -- expressions
    def index(self, n, arrs, depth=0):
        r = self.r
        k = r.randrange(9)
        if k == 8:
            return r.choice(["one ? %d : %d", "zero ? %d : %d", "one == 1 ? %d : %d"]) % (r.randrange(n), r.randrange(n))
        if k <= 1:
            return str(r.randrange(n))
        if k == 2:
            return "idf(%d)" % r.randrange(n)
        if k == 3:
            return "(i + %d) %% %d" % (r.randrange(50), n)
        if k == 4 and not self.side:
            self.side = True
            return r.choice(["s++ %% %d", "++s %% %d", "(s += 3) %% %d", "idf(s++) %% %d"]) % n
        if k >= 5 and depth < 3:
            return "%s %% %d" % (self.ref(arrs, depth + 1, num=True), n)
        return "i %% %d" % n

    def ref(self, arrs, depth=0, num=False):
        r = self.r
        a = r.choice([x for x in arrs if not num or x[0] not in ("double",)])
        t, name, n = a
        e = "CA_REF(%s, %s)" % (name, self.index(n, arrs, depth))
        if t == "struct rec":
            e += r.choice([".x", ".y[%d]" % r.randrange(3)])
        if num and t == "unsigned long" and depth:
            e = "(unsigned)" + e
        return e

    def stmt(self, arrs, ind):
        r = self.r
        self.side = False
        k = r.randrange(13)
        if k == 0:
            return "%s = %s;" % (self.ref(arrs), self.ref(arrs, num=True))
        if k == 1:
            return "%s = %s + %s;" % (self.ref(arrs), self.ref(arrs, num=True), self.ref(arrs, num=True))
        if k == 2:
            return "%s %s= %s;" % (self.ref(arrs, num=True), r.choice("+-^|&"), self.ref(arrs, num=True))
        if k == 3:
            return "%s%s;" % (self.ref(arrs, num=True), r.choice(["++", "--"]))
        if k == 4:
            return "if (%s < %s) mix(%d); else mix(%s);" % (self.ref(arrs, num=True), self.ref(arrs, num=True), r.randrange(99), self.ref(arrs, num=True))
        if k == 5:
            return "mix(idf(%s) + (unsigned)sizeof(%s));" % (self.ref(arrs, num=True), "CA_REF(%s, 0)" % r.choice(arrs)[1])
        if k == 6:
            a = r.choice([x for x in arrs if x[0] != "struct rec"])
            x, y = r.sample(range(a[2]), 2)
            return "{ %s tmp = CA_REF(%s, %d); CA_REF(%s, %d) = CA_REF(%s, %d); CA_REF(%s, %d) = tmp; }" % (a[0], a[1], x, a[1], x, a[1], y, a[1], y)
        if k == 7:
            a = r.choice(arrs)
            return "{ %s *q = &CA_REF(%s, %s); memset(q, %d, 1); }" % (a[0], a[1], self.index(a[2], arrs), r.randrange(60))
        if k == 8:
            a = r.choice(arrs)
            n = a[2]
            return "for (j = 0; j < %d; ++j) CA_REF(%s, j)%s = CA_REF(%s, %d - j)%s;" % (n, a[1], ".x" if a[0] == "struct rec" else "", a[1], n - 1, ".x" if a[0] == "struct rec" else "")
        if k == 9:
            self.nticks += self.weight
            return r.choice(["DUMA_ASSERT(yes(1));", "if (one) DUMA_ASSERT(yes(2) && one); else mix(1);", "mix((DUMA_ASSERT(yes(1) == 1), %d));" % r.randrange(99),
                             "for (j = 0; j < 1; DUMA_ASSERT(yes(1)), ++j) mix(j);", "DUMA_ASSERT(yes(-1)); mix(3);", "j = 5, DUMA_ASSERT(yes(1) ? nul == 0 : 0), mix(j);",
                             "do DUMA_ASSERT(yes(1)); while (zero);", "DUMA_ASSERT(yes(0) || one);", "DUMA_ASSERT(zero ? zero : yes(1));", "DUMA_ASSERT(zero ^ yes(1));"])
        if k == 10:
            return "DUMA_ASSERT(%s);" % r.choice(["one", "\"text\"", "one == 1 && !zero", "0.5", "&one", "1 || nul", "%s >= 0" % self.ref(arrs, num=True).replace("s++", "1").replace("++s", "1").replace("(s += 3)", "1").replace("idf(", "(")])
        if k == 11:
            return "mix(%s ? %s : %s);" % (self.ref(arrs, num=True), self.ref(arrs, num=True), self.ref(arrs, num=True))
        return "mix((unsigned long)%s);" % self.ref(arrs, num=True)

    def fail(self, arrs):
        r = self.r
        m = len(self.modes) + 1
        if r.random() < .6:
            a = r.choice(arrs)
            n = a[2]
            ix = r.choice([str(n), str(n), "%d + one" % (n - 1), "-1", "-one", "zero - 1", "-%d" % n, "1UL << 40", "LONG_MIN", "(short)-3", "(signed char)-128", "ULONG_MAX",
                           "~0u", "%du + (unsigned)one" % (n - 1), "INT_MAX", "(unsigned char)(zero - 1)" if n < 255 else "-2", "(long)one << 32", "(1L << 32) * one + %d" % n,
                           "idf(%d)" % n, "s = %d" % n])
            x = ".x" if a[0] == "struct rec" else ""
            ref = "CA_REF(%s, %s)%s" % (a[1], ix, x)
            st = r.choice(["%s = 1;" % ref, "mix((unsigned long)%s);" % ref, "mix((unsigned long)(size_t)&%s);" % ref, "%s += 2;" % ref,
                           "if (%s == 0) mix(1);" % ref, "if (one) %s = 0; else mix(2);" % ref,
                           "CA_REF(%s, CA_REF(%s, %s)%s %s) = %s;" % (arrs[0][1], a[1], ix, x, "" if a[0] == "double" else "% 3", 0) if a[0] != "double" else "%s = 2;" % ref])
            self.modes.append((m, (a[1], ix), None, "index"))
        else:
            ex = r.choice(["zero", "one == 2", "nul", "nul != 0", "0", "!one", "zero || mode < 0", "strcmp(\"%s%n%d\", \"x\") == 0", "(unsigned char)(one * 256)", "0.0 * one",
                           "idf(0)", "one - 1", "yes(0)", "'a' == 'b'", "CA_REF(%s, 0)%s != CA_REF(%s, 0)%s" % (arrs[0][1], ".x" if arrs[0][0] == "struct rec" else "", arrs[0][1], ".x" if arrs[0][0] == "struct rec" else ""),
                           "(long)one << 32 == 0", "one > 1 ? one : 0", "one ? zero : one", "one ? nul : \"text\"", "s = 0", "s *= zero", "s &= 0u",
                           "one ? one ? zero : 1 : 1", "zero ? 1 : 0 | zero", "one ^ 1", "one == 1 ? zero == 1 : one == 1", "zero && one || zero"])
            st = r.choice(["DUMA_ASSERT(%s);", "mix((DUMA_ASSERT(%s), 1));", "if (one) DUMA_ASSERT(%s); else mix(1);", "while (one) DUMA_ASSERT(%s);", "j = 1, DUMA_ASSERT(%s);"]) % ex
            self.modes.append((m, ex, None, "assert"))
        self.modes[-1] = self.modes[-1][:2] + (self.line,) + self.modes[-1][3:]
        self.emit("  FAIL(%d) { %s }" % (m, st))

    def prot(self, k, arrs):
        """A function with protected return address."""
        r = self.r
        void = r.random() < .5
        n = r.randrange(1, 4)
        self.emit("#if defined(__GNUC__)\n__attribute__((noinline))\n#endif")
        self.emit("static %s prot%d(int how, int on) {" % ("void" if void else "unsigned", k))
        self.emit("  DUMA_FN_PROT_START")
        self.emit("  unsigned i = 1, j = 0, s = 0; CA_DEFINE(unsigned, loc, 7);")
        self.emit("  for (j = 0; j < 7; ++j) CA_REF(loc, j) = j * 3 + (unsigned)how;")
        la = arrs + [("unsigned", "loc", 7)]
        self.weight = 3          # three calls
        for x in range(n):
            self.emit("  " + self.stmt(la, 1))
        self.weight = 1
        self.emit("  if (on != 0) smash(__builtin_frame_address(0), 1);")
        lines = {}
        for x in range(r.randrange(0, 3)):
            lines[x] = self.line
            ret = "DUMA_FN_PROT_RET_VOID();" if void else "DUMA_FN_PROT_RET(i + j + %s);" % ("CA_REF(loc, %d)" % r.randrange(7))
            self.emit(r.choice(["  if (how == %d) %s", "  if (how == %d) %s else mix(j);", "  while (how == %d) %s", "  switch (how) { case %d: %s default: ; }"]) % (x, ret))
        end = self.line
        self.emit("  DUMA_FN_PROT_END%s" % r.choice(["", ";"]))
        if not void:
            self.emit("  return 4;")
        self.emit("  (void)0; }" if void else "  }")
        out = []
        for h in range(3):
            if self.cached:
                out.append("  prot%d(%d, 0);" % (k, h) if void else "  mix(prot%d(%d, 0));" % (k, h))
                continue
            m = len(self.modes) + 1
            self.modes.append((m, "__builtin_return_address(0) == DUMA_RET_ADDR", lines.get(h, end), "prot"))
            call = "prot%d(%d, mode == %d)" % (k, h, m)
            out.append("  FAIL(%d) {}" % m)
            out.append("  %s" % (call + ";" if void else "mix(%s);" % call))
        return out

    def recur(self):
        """Protected functions that are active several times at once, entered from different places."""
        r = self.r
        void = r.random() < .5
        t = "void" if void else "unsigned"
        self.emit("static %s recb(int n, int at);" % t)
        where = {}
        for f, g in (("reca", "recb"), ("recb", "reca")):
            if r.random() < .3:
                g = f
            self.emit("#if defined(__GNUC__)\n__attribute__((noinline))\n#endif")
            self.emit("static %s %s(int n, int at) {" % (t, f))
            self.emit("  DUMA_FN_PROT_START")
            self.emit("  unsigned j = (unsigned)n; volatile int k = 0;")
            for x in range(r.randrange(1, 4)):
                self.emit("  if (n > %d) %s%s(n - %d, at); k += %d;" % (x, "" if void else "j += 3 * ", r.choice([f, g]), x + 1, x))
            if r.random() < .5:
                self.emit("  for (k = 0; k < 2; ++k) if (n == 1) %s(0, at);" % g)
            self.emit("  mix(j);")
            self.emit("  if (n == at) smash(__builtin_frame_address(0), 1);")
            if r.random() < .5:
                where[f, 1] = self.line
                self.emit("  if (n % 2) " + ("DUMA_FN_PROT_RET_VOID();" if void else "DUMA_FN_PROT_RET(j + 1);"))
            if not void:
                where[f, 0] = self.line
                self.emit("  DUMA_FN_PROT_RET(j);")
            else:
                where[f, 0] = self.line
            self.emit("  DUMA_FN_PROT_END")
            self.emit("  (void)0; }" if void else "  return 4; }")
        out = []
        for f in ("reca", "recb"):
            n = r.randrange(2, 6)
            m = len(self.modes) + 1
            if self.cached:          # the compiler may keep the return address in a register
                out.append("  %s(%d, -1);" % (f, n))
                continue
            self.modes.append((m, "__builtin_return_address(0) == DUMA_RET_ADDR", where.get((f, n % 2), where[f, 0]), "prot"))
            call = "%s(%d, mode == %d ? %d : -1)" % (f, n, m, n)
            out += ["  FAIL(%d) {}" % m, "  %s" % (call + ";" if void else "mix(%s);" % call)]
        return out

    def make(self, nstmt=60):
        r = self.r
        arrs = []
        for k in range(4):
            t, n = TYPES[k] if k < 2 else r.choice(TYPES), r.choice([3, 4, 7, 10, 100, 128])
            name = r.choice(["ga%d", "tab_%d", "Vec%d"]) % k
            if r.random() < .5:
                self.emit("static %s %s[%d];\nCA_DECLARE(%s, %d);" % (t, name, n, name, n))
            else:
                self.emit("CA_DEFINE(%s, %s, %d);" % (r.choice(["static ", ""]) + t, name, n))
            arrs.append((t, name, n))
        calls = []
        for k in range(3):
            calls.append(self.prot(k, arrs))
        calls.append(self.recur())
        self.emit("static void part(void) {")
        self.emit("  unsigned i = %d, j = 0, s = 1;" % r.randrange(9))
        loc = []
        for k in range(2):
            t, n = r.choice(TYPES), r.choice([3, 5, 9, 33])
            if r.random() < .5:
                self.emit("  CA_DEFINE(%s, la%d, %d);" % (t, k, n))
            else:
                self.emit("  %s la%d[%d]; CA_DECLARE(la%d, %d);" % (t, k, n, k, n))
            loc.append((t, "la%d" % k, n))
        self.emit("  unsigned *ptr = (unsigned *)malloc(11 * sizeof *ptr); CA_DECLARE(ptr, 11);")
        self.emit("  memset(ptr, 1, 11 * sizeof *ptr);" + "".join(" memset(%s, 0, sizeof %s);" % (a[1], a[1]) for a in loc))
        loc.append(("unsigned", "ptr", 11))
        al = arrs + loc
        for x in range(nstmt):
            if calls and r.random() < .1:
                for l in calls.pop():
                    self.emit(l)
            if r.random() < .35:
                self.fail(al)
            else:
                self.emit("  " + self.stmt(al, 1))
                if r.random() < .3:
                    self.emit("  ++i;")
                if r.random() < .2:
                    a = r.choice([x for x in al if x[1] != "ptr"])
                    if a[0] == "struct rec":
                        self.emit("  for (j = 0; j < %d; ++j) mix(%s[j].x + %s[j].y[1]);" % (a[2], a[1], a[1]))
                    else:
                        self.emit("  for (j = 0; j < %d; ++j) mix((unsigned long)%s[j]);" % (a[2], a[1]))
                    self.emit("  printf(\"%d %%lx\\n\", H);" % x)
        for c in calls:
            for l in c:
                self.emit(l)
        self.emit("  free(ptr); (void)i; (void)j; (void)s;")
        self.emit("}")
        self.emit(TAIL.replace("RUN", "part();"))
        return "\n".join(self.out) + "\n"
