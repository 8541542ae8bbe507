// An ordinary program, built without DUMA: it does a bit of everything and prints what came out. The
// check runs it with and without the preloaded library and compares. With VT_DEFECT it is defective.
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <future>
#include <glob.h>
#include <iconv.h>
#include <iomanip>
#include <iostream>
#include <list>
#include <locale.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <pthread.h>
#include <pwd.h>
#include <regex.h>
#include <regex>
#include <search.h>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <wchar.h>
extern char **environ;
#ifdef OWN_NEW      // a program may bring its own operators
static std::atomic<long> news;
void *operator new(size_t n) { ++news; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) --news; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --news; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif
typedef uint64_t u64;
struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x * 0xD1342543DE82EF95ull + 77) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
};
static u64 H = 1;
static void mixin(u64 v) { H ^= v + 0x9E3779B97F4A7C15ull + (H << 6) + (H >> 2); H *= 0xBF58476D1CE4E5B9ull; H ^= H >> 31; }
static void mixs(const char *s, size_t n) { for (size_t i = 0; i < n; ++i) mixin((unsigned char)s[i]); }
static void mixs(const char *s) { mixs(s, strlen(s)); }
static void say(const char *what) { printf("%s %016llx errno=%d\n", what, (unsigned long long)H, errno); }

// objects before and after main
struct Early { char *p; std::string *s; Early() { p = strdup("early bird"); s = new std::string(500, 'e'); } ~Early() { mixs(p); mixs(s->c_str()); free(p); delete s; if (write(1, "~Early\n", 7)) {} } };
static Early early;
__attribute__((constructor(101))) static void first() { void *p = malloc(77); memset(p, 1, 77); free(p); }
static char *kept_by_exit;
static void at_end() { mixs(kept_by_exit); free(kept_by_exit); kept_by_exit = 0; char *q = (char *)malloc(1000); memset(q, 3, 1000); free(q); if (write(1, "atexit\n", 7)) {} }

// ---------------------------------------------------------------- pieces
static void heap(Rng &r, int ops) {
  struct B { unsigned char *p; size_t n; unsigned char c; int how; };
  std::vector<B> v;
  for (int i = 0; i < ops; ++i) {
    if (v.size() > 60 || (!v.empty() && r.below(100) < 40)) {
      size_t j = r.below(v.size());
      B b = v[j];
      for (size_t k = 0; k < b.n; ++k) if (b.p[k] != (unsigned char)(b.c + k)) { printf("contents of a %zu-byte block changed\n", b.n); exit(3); }
      mixin(b.n * 256 + b.c);
      errno = (int)r.below(100);
      if (b.how < 8 && r.below(4) == 0) {
        size_t n = r.range(1, r.below(10) ? 3000 : 200000);
        unsigned char *q = (unsigned char *)realloc(b.p, n);
        if (!q) { printf("realloc failed\n"); exit(3); }
        for (size_t k = 0; k < std::min(n, b.n); ++k) if (q[k] != (unsigned char)(b.c + k)) { printf("realloc lost contents\n"); exit(3); }
        for (size_t k = 0; k < n; ++k) q[k] = (unsigned char)(b.c + k);
        v[j].p = q; v[j].n = n; v[j].how = 0;
        continue;
      }
      if (b.how < 8) free(b.p);
      else if (b.how == 8) ::operator delete(b.p);
      else if (b.how == 9) ::operator delete[](b.p);
      else if (b.how == 10) ::operator delete(b.p, std::nothrow);
      else ::operator delete(b.p, std::align_val_t(64));
      mixin(errno);       // releasing leaves errno alone
      v[j] = v.back(); v.pop_back();
      continue;
    }
    B b; b.n = r.range(1, r.below(20) ? 600 : 70000); b.c = (unsigned char)r.next(); b.how = (int)r.below(12);
    if (r.below(40) == 0 && b.how != 4 && b.how != 6) b.n = 0;
    void *m = 0;
    switch (b.how) {
    case 0: m = malloc(b.n); break;
    case 1: m = calloc(b.n, 1); for (size_t k = 0; k < b.n; ++k) mixin(((char *)m)[k]); break;
    case 2: m = memalign(32, b.n); mixin((uintptr_t)m % 32); break;
    case 3: mixin(posix_memalign(&m, 128, b.n)); mixin((uintptr_t)m % 128); break;
    case 4: m = valloc(b.n); mixin((uintptr_t)m % 4096); break;
    case 5: m = aligned_alloc(64, b.n); mixin((uintptr_t)m % 64); break;
    case 6: m = pvalloc(b.n); mixin((uintptr_t)m % 4096); break;
    case 7: m = reallocarray(0, b.n, 1); break;
    case 8: m = ::operator new(b.n); break;
    case 9: m = ::operator new[](b.n); break;
    case 10: m = ::operator new(b.n, std::nothrow); break;
    case 11: m = ::operator new(b.n, std::align_val_t(64)); mixin((uintptr_t)m % 64); break;
    }
    if (!m) { printf("allocation %d of %zu bytes failed\n", b.how, b.n); exit(3); }
    if (b.how != 6 && malloc_usable_size(m) < b.n) { printf("usable size\n"); exit(3); }
    b.p = (unsigned char *)m;
    for (size_t k = 0; k < b.n; ++k) b.p[k] = (unsigned char)(b.c + k);
    v.push_back(b);
  }
  for (auto &b : v) { mixs((char *)b.p, b.n); if (b.how < 8) free(b.p); else if (b.how == 8) ::operator delete(b.p); else if (b.how == 9) ::operator delete[](b.p); else if (b.how == 10) ::operator delete(b.p, std::nothrow); else ::operator delete(b.p, std::align_val_t(64)); }
}
static void strings(Rng &r) {
  for (int i = 0; i < 30; ++i) {
    size_t n = r.below(300), m = r.below(300);
    char *a = (char *)malloc(n + m + 2), *b = (char *)malloc(m + 1);
    for (size_t k = 0; k < n; ++k) a[k] = 'a' + (char)r.below(26);
    a[n] = 0;
    for (size_t k = 0; k < m; ++k) b[k] = 'A' + (char)r.below(26);
    b[m] = 0;
    size_t l = r.below(m + 3);
    mixin(strcat(a, b) == a); mixs(a);
    mixin(strncat(a + n, "", 5) == a + n);
    a[n] = 0; mixin(strncat(a, b, l) == a); mixs(a);
    char *c = strdup(a); mixs(c);
    char *d = strndup(a, r.below(n + m + 5)); mixs(d);
    mixin(strcpy(c, "") == c); mixs(c);
    if (strlen(a) >= 3) { mixin(strncpy(a, "xy\0z", 3) == a); mixs(a, 3); }
    mixin(memcpy(b, a, std::min(m, n)) == b); mixs(b, m);
    if (m > 4) { size_t x = r.below(m), y = r.below(m), z = r.below(m - std::max(x, y)); mixin(memmove(b + x, b + y, z) == b + x); mixs(b, m); }
    char *e = 0; int en = asprintf(&e, "%s-%zu-%*d", d, n, (int)r.below(200), 5); mixin(en); mixs(e);
    free(a); free(b); free(c); free(d); free(e);
  }
  wchar_t *w = wcsdup(L"wide characters"); mixin(wcslen(w)); free(w);
}
static void stdio_(Rng &r) {
  char name[] = "/tmp/vt-pre-XXXXXX";
  int fd = mkstemp(name); unlink(name);
  FILE *f = fdopen(fd, "w+");
  std::vector<char> buf(r.range(100, 5000));
  if (r.below(2)) setvbuf(f, buf.data(), _IOFBF, buf.size());
  int n = (int)r.range(1, 60);
  for (int i = 0; i < n; ++i) { fprintf(f, "%d:", i); for (u64 k = r.below(200); k; --k) putc('a' + (int)r.below(26), f); putc('\n', f); }
  rewind(f);
  char *line = 0; size_t cap = 0; ssize_t k;
  while ((k = getline(&line, &cap, f)) >= 0) { mixin(k); mixs(line); }
  free(line);
  fclose(f);
  char *mp = 0; size_t mn = 0;
  f = open_memstream(&mp, &mn);
  for (int i = 0; i < 200; ++i) fprintf(f, "%x,", (unsigned)r.below(1 << 20));
  fclose(f); mixs(mp, mn); free(mp);
  f = fmemopen(0, 300, "w+"); fputs("hello", f); rewind(f); int c; while ((c = getc(f)) > 0) mixin(c); fclose(f);
  f = popen("echo from a child; exit 4", "r"); char b[100]; while (fgets(b, sizeof b, f)) mixs(b); mixin(pclose(f));
  printf("%*s|%.300f\n", (int)r.below(3000), "wide", 1.0 / 3);
}
static int cmp(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
static void libc_(Rng &r) {
  std::vector<u64> v(r.range(10, 3000));
  for (auto &x : v) x = r.next();
  qsort(v.data(), v.size(), sizeof(u64), cmp);
  for (auto x : v) mixin(x);
  regex_t re; mixin(regcomp(&re, "(a+)(b|c)*d", REG_EXTENDED)); regmatch_t m[3]; mixin(regexec(&re, "xxaabcbcdyy", 3, m, 0)); mixin(m[0].rm_so * 100 + m[0].rm_eo); regfree(&re);
  struct dirent **d; int n = scandir("/usr/share/zoneinfo", &d, 0, alphasort);
  for (int i = 0; i < n; ++i) { mixs(d[i]->d_name); free(d[i]); }
  if (n >= 0) free(d);
  glob_t g; memset(&g, 0, sizeof g); mixin(glob("/etc/host*", 0, 0, &g)); for (size_t i = 0; i < g.gl_pathc; ++i) mixs(g.gl_pathv[i]); globfree(&g);
  iconv_t ic = iconv_open("UTF-16LE", "UTF-8"); if (ic != (iconv_t)-1) { char in[] = "gr\xc3\xbc\xc3\x9f", out[40], *ip = in, *op = out; size_t il = strlen(in), ol = sizeof out; mixin(iconv(ic, &ip, &il, &op, &ol)); mixs(out, sizeof out - ol); iconv_close(ic); }
  struct passwd *pw = getpwuid(0); if (pw) mixs(pw->pw_name);
  void *root = 0;
  for (int i = 0; i < 50; ++i) { static u64 keys[50]; keys[i] = r.below(30); tsearch(&keys[i], &root, cmp); }
  tdestroy(root, [](void *) {});
  setenv("VT_NEW", std::string(r.range(1, 2000), 'n').c_str(), 1); mixs(getenv("VT_NEW")); unsetenv("VT_NEW");
  char *cw = getcwd(0, 0); mixin(cw != 0); free(cw);
  char *rp = realpath("/usr/../etc/./hosts", 0); if (rp) mixs(rp); free(rp);
  setlocale(LC_ALL, "C.UTF-8"); time_t t = 86400; char b[100]; strftime(b, sizeof b, "%c", gmtime(&t)); mixs(b); setlocale(LC_ALL, "C");
}
struct Node { std::shared_ptr<Node> next; std::string s; };
static thread_local std::string tls_s;
struct TD { char *p = 0; ~TD() { free(p); } };
static thread_local TD tls_d;
static void cpp(Rng &r) {
  std::map<std::string, std::vector<int>> m;
  for (int i = 0; i < 60; ++i) m[std::string(r.range(1, 40), 'a' + (char)r.below(26))].push_back((int)r.below(1000));
  for (auto &x : m) { mixs(x.first.c_str()); for (int y : x.second) mixin(y); }
  std::unordered_map<u64, std::string> u;
  for (int i = 0; i < 100; ++i) u[r.below(50)] += "z";
  u64 s = 0; for (auto &x : u) s += x.first * x.second.size(); mixin(s);
  std::list<std::function<u64(u64)>> f;
  for (int i = 0; i < 20; ++i) { u64 a = r.next(), b = r.next(), c = i; f.push_back([a, b, c](u64 x) { return x * a + b + c; }); }
  u64 x = 1; for (auto &g : f) x = g(x); mixin(x);
  std::ostringstream o; o << std::setw(30) << 3.25 << std::hex << 255 << std::endl; mixs(o.str().c_str());
  std::istringstream in("1 2 3 four"); int k; while (in >> k) mixin(k);
  for (int i = 0; i < 6; ++i)
    try { try { std::vector<char> q(r.range(1, 300)); q.at(5000) = 1; } catch (std::out_of_range &e) { if (i & 1) throw; throw std::runtime_error(std::string("again ") + (i & 2 ? "x" : "y")); } }
    catch (std::exception &e) { mixs(e.what()); }
#ifndef OWN_NEW   // a refused malloc ends the program unless DUMA_MALLOC_FAILEXIT=0
  try { std::vector<std::string> huge; huge.reserve(huge.max_size()); mixin(1); } catch (std::exception &e) { mixs("huge"); }
#endif
  std::shared_ptr<Node> head; for (int i = 0; i < 40; ++i) { auto q = std::make_shared<Node>(); q->next = head; q->s.assign(r.below(60), 'q'); head = q; }
  for (auto p = head; p; p = p->next) mixs(p->s.c_str());
  std::regex rx("(\\d+)-(\\w+)"); std::smatch sm; std::string str = "aa 12-bc dd"; mixin(std::regex_search(str, sm, rx)); mixs(sm[2].str().c_str());
  struct alignas(256) Wide { char c[256]; }; Wide *w = new Wide[3]; mixin((uintptr_t)w % 256); delete[] w;
  char *z = new char[0]; delete[] z;
  delete (int *)0; free(0);
}
static void threads(Rng &r) {
  int n = (int)r.range(2, 6);
  std::vector<u64> res(n);
  std::vector<std::thread> t;
  std::mutex mu; std::condition_variable cv; std::vector<std::string *> q; int done = 0;
  std::atomic<u64> sum(0);
  for (int i = 0; i < n; ++i) {
    u64 seed = r.next();
    t.emplace_back([&, i, seed] {
      Rng q2(seed); u64 h = 0;
      tls_s.assign(100 + i, 't'); tls_d.p = strdup("thread's own");
      std::vector<char *> v;
      for (int k = 0; k < 80; ++k) {
        size_t len = q2.range(1, 500); char *p = (char *)(k & 1 ? malloc(len) : calloc(1, len)); memset(p, i, len); v.push_back(p); h += len;
        if (v.size() > 10) { size_t j = q2.below(v.size()); h += v[j][0]; free(v[j]); v.erase(v.begin() + j); }
        if (k % 10 == 0) { std::string *s = new std::string(q2.range(1, 100), 'm'); sum += s->size(); std::lock_guard<std::mutex> g(mu); q.push_back(s); cv.notify_one(); }
      }
      for (char *p : v) free(p);
      try { throw std::runtime_error("in thread"); } catch (std::exception &e) { h += strlen(e.what()); }
      res[i] = h;
      std::lock_guard<std::mutex> g(mu); ++done; cv.notify_one();
    });
  }
  u64 got = 0;
  for (;;) {      // released in another thread than allocated
    std::unique_lock<std::mutex> g(mu);
    cv.wait(g, [&] { return !q.empty() || done == n; });
    if (q.empty()) break;
    std::string *s = q.back(); q.pop_back(); g.unlock();
    got += s->size(); delete s;
  }
  for (auto &x : t) x.join();
  for (u64 x : res) mixin(x);
  mixin(got == sum);
  auto fu = std::async(std::launch::async, [](u64 x) { return std::string(x, 'f'); }, 77); mixs(fu.get().c_str());
  pthread_t pt; pthread_create(&pt, 0, [](void *) -> void * { void *p = malloc(100); pthread_cleanup_push(free, p); pthread_exit(strdup("value")); pthread_cleanup_pop(0); return 0; }, 0);
  void *val; pthread_join(pt, &val); mixs((char *)val); free(val);
}
static void loads(Rng &r) {
  for (int i = 0; i < 2; ++i) {
    const char *l[] = {"libm.so.6", "libz.so.1", "libresolv.so.2", "liblzma.so.5"};
    void *h = dlopen(l[r.below(4)], r.below(2) ? RTLD_NOW : RTLD_LAZY);
    mixin(h != 0);
    if (h) { if (void *c = dlsym(h, "cos")) mixin((u64)(((double (*)(double))c)(1.0) * 1e9)); dlerror(); dlclose(h); }
  }
  mixin(dlopen("/no/such/library.so", RTLD_NOW) != 0); mixin(dlerror() != 0);
}
static int g_argc; static char **g_argv;
static void children(Rng &r) {
  fflush(stdout);
  char *p = (char *)malloc(5000); memset(p, 7, 5000);
  pid_t a = fork();
  if (!a) {
    // the child's heap is its own
    memset(p, 9, 5000); char *q = (char *)realloc(p, 9000); for (int i = 0; i < 5000; ++i) if (q[i] != 9) _exit(1);
    heap(r, 30); free(q);
    printf("child %016llx\n", (unsigned long long)H);
    exit(11);
  }
  int st; waitpid(a, &st, 0); mixin(st);
  for (int i = 0; i < 5000; ++i) if (p[i] != 7) { printf("parent's block changed\n"); exit(3); }
  free(p);
  if (g_argc < 2 || strcmp(g_argv[1], "again")) {
    char self[4096]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1); self[k] = 0;
    char *av[] = {self, (char *)"again", 0};
    pid_t b; mixin(posix_spawn(&b, self, 0, 0, av, environ)); waitpid(b, &st, 0); mixin(st);
    a = fork(); if (!a) { setenv("VT_WHAT", "3", 1); execv(self, av); _exit(9); }
    waitpid(a, &st, 0); mixin(st);
  }
  mixin(system("exit 6"));
  pid_t v = vfork(); if (!v) _exit(5); waitpid(v, &st, 0); mixin(st);
  // ended by a signal
  a = fork(); if (!a) { char *q = (char *)malloc(10); q[0] = 1; kill(getpid(), SIGTERM); for (;;) pause(); }
  waitpid(a, &st, 0); mixin(st);
}
static jmp_buf jb;
static void misc(Rng &r) {
  volatile int n = 0;
  if (setjmp(jb) < 5) { void *p = malloc(r.range(1, 99)); free(p); n = n + 1; longjmp(jb, n); }
  mixin(n);
  errno = 0; FILE *f = fopen("/etc/hosts", "r"); if (f) { char b[3000]; while (fgets(b, sizeof b, f)) {} mixin(errno); fclose(f); mixin(errno); }
  errno = 0; DIR *d = opendir("/etc"); if (d) { while (readdir(d)) {} mixin(errno); closedir(d); mixin(errno); }
  errno = 0; strtol("999999999999999999999", 0, 10); int e = errno; free(malloc(50)); mixin(errno == e);
  errno = 33; char *p = new char[100]; delete[] p; mixin(errno);
}
static int defect(int k);
static void served();

int main(int argc, char **argv) {
  g_argc = argc; g_argv = argv;
  const char *s = getenv("VT_SEED"), *d = getenv("VT_DEFECT"), *w = getenv("VT_WHAT");
  if (getenv("VT_SERVED")) { served(); return 0; }
  if (d) return defect(atoi(d));
  Rng r(s ? strtoull(s, 0, 0) : 1);
  kept_by_exit = strdup("kept until the end");
  atexit(at_end);
  errno = 0;
  int what = w ? atoi(w) : 0;
  int steps = argc > 1 ? 2 : 5;
  for (int i = 0; i < steps; ++i) {
    int k = what ? what : (int)r.below(10);
    errno = 0;
    switch (k) {
    case 0: case 3: heap(r, (int)r.range(20, 400)); errno = 0; say("heap"); break;
    case 1: strings(r); errno = 0; say("strings"); break;
    case 2: stdio_(r); errno = 0; say("stdio"); break;
    case 4: libc_(r); errno = 0; say("libc"); break;
    case 5: cpp(r); errno = 0; say("c++"); break;
    case 6: threads(r); errno = 0; say("threads"); break;
    case 7: loads(r); errno = 0; say("libraries"); break;
    case 8: children(r); errno = 0; say("children"); break;
    case 9: misc(r); say("misc"); break;
    }
  }
  std::cout << "end of main" << std::endl;
  fprintf(stderr, "a message of the program\n");
  return (int)(H & 63);
}

// ---------------------------------------------------------------- who serves the functions?
static sigjmp_buf pj;
static void onseg(int) { siglongjmp(pj, 1); }
static bool dead(volatile char *p) { if (sigsetjmp(pj, 1)) return true; char c = *p; (void)c; return false; }
static void serve(const char *n, void *p, size_t sz, bool exact = true) {
  // the first page border behind the block is guarded
  char *e = exact ? (char *)p + sz : (char *)(((uintptr_t)p + sz + 4095) & ~(uintptr_t)4095);
  printf("served %s %s\n", n, p && dead(e) ? "yes" : "no");
}
static void served() {
  signal(SIGSEGV, onseg);
  void *p; char *s = 0; size_t n = 0;
  p = malloc(100); serve("malloc", p, 100); free(p); printf("freed malloc %s\n", dead((char *)p) ? "yes" : "no");
  p = calloc(10, 10); serve("calloc", p, 100); p = realloc(p, 200); serve("realloc", p, 200); free(p); printf("freed realloc %s\n", dead((char *)p) ? "yes" : "no");
  p = realloc(0, 77); serve("realloc0", p, 77); free(p);
  p = memalign(64, 128); serve("memalign", p, 128); free(p);
  p = 0; if (posix_memalign(&p, 64, 128)) p = 0; serve("posix_memalign", p, 128); free(p);
  p = aligned_alloc(64, 128); serve("aligned_alloc", p, 128); free(p);
  p = valloc(4096); serve("valloc", p, 4096); free(p);
  p = pvalloc(4096); serve("pvalloc", p, 4096); free(p);
  p = reallocarray(0, 10, 10); serve("reallocarray", p, 100); free(p);
  s = strdup("hello"); serve("strdup", s, 6); free(s);
  s = strndup("hello", 3); serve("strndup", s, 4); free(s);
  wchar_t *w = wcsdup(L"ab"); serve("wcsdup", w, 12); free(w);
  if (asprintf(&s, "%d", 12345) < 0) s = 0; serve("asprintf", s, 6, false); free(s);
  s = getcwd(0, 0); serve("getcwd", s, strlen(s) + 1, false); free(s);
  s = realpath("/etc", 0); serve("realpath", s, strlen(s) + 1, false); free(s);
  FILE *f = fopen("/etc/hosts", "r"); serve("fopen", f, 472, false); s = 0; if (f && getline(&s, &n, f) < 0) {} serve("getline", s, n, false); free(s); fclose(f);
  DIR *d = opendir("/etc"); serve("opendir", d, 32816, false); closedir(d);
  p = ::operator new(50); serve("new", p, 50); ::operator delete(p); printf("freed new %s\n", dead((char *)p) ? "yes" : "no");
  p = ::operator new[](50); serve("new[]", p, 50); ::operator delete[](p); printf("freed new[] %s\n", dead((char *)p) ? "yes" : "no");
  p = ::operator new(50, std::nothrow); serve("new nothrow", p, 50); ::operator delete(p, std::nothrow);
  p = ::operator new[](50, std::nothrow); serve("new[] nothrow", p, 50); ::operator delete[](p, std::nothrow);
  p = ::operator new(64, std::align_val_t(64)); serve("new aligned", p, 64); ::operator delete(p, std::align_val_t(64));
  p = ::operator new[](64, std::align_val_t(64)); serve("new[] aligned", p, 64); ::operator delete[](p, std::align_val_t(64));
  p = ::operator new(48); serve("new sized", p, 48); ::operator delete(p, (size_t)48);
  std::vector<char> v(333); serve("vector", v.data(), 333);
  std::string str(500, 'x'); str.shrink_to_fit(); serve("string", (void *)str.data(), str.capacity() + 1);
  auto sp = std::make_shared<std::vector<long>>(10); serve("make_shared", sp->data(), 80);
  pthread_t t; static void *tp; pthread_create(&t, 0, [](void *) -> void * { tp = malloc(60); return 0; }, 0); pthread_join(t, 0); serve("thread's malloc", tp, 60); free(tp);
  void *h = dlopen("libz.so.1", RTLD_NOW);
  if (h) { typedef void *(*Open)(const char *, const char *); typedef int (*Close)(void *); Open o = (Open)dlsym(h, "gzopen"); Close c = (Close)dlsym(h, "gzclose"); if (o && c) { void *g = o("/etc/hosts", "r"); serve("loaded library", g, 24, false); c(g); } dlclose(h); }
  fflush(stdout);
}
// ---------------------------------------------------------------- defects
static volatile int one = 1;
static volatile char sink;
struct Obj { int a[5]; };
static void *volatile escaped;
template <class T> static void escape(T *&p) { escaped = p; p = (T *)escaped; }
static int defect(int k) {
  int m = k / 100; k %= 100;        // m: size etc.
  Rng r(m + 1);
  size_t n = r.range(1, 9000);
  char *p, *q;
#define DO(what) do { if (write(1, "A", 1)) {} what; if (write(1, "B", 1)) {} } while (0)
  switch (k) {
  case 0: p = (char *)malloc(n); DO(p[n] = 1); break;
  case 1: p = (char *)malloc(n); DO(sink = p[n]); break;
  case 2: p = (char *)calloc(n, 1); DO(p[n + r.below(4000)] = 1); break;
  case 3: p = (char *)realloc(malloc(5), n); DO(sink = p[n]); break;
  case 4: p = new char[n]; DO(p[n] = 1); break;
  case 5: { int *a = new int[n]; DO(a[n] = one); break; }
  case 6: p = (char *)malloc(n); free(p); DO(sink = p[r.below(n)]); break;
  case 7: p = (char *)malloc(n); free(p); DO(p[r.below(n)] = 1); break;
  case 8: p = new char[n]; escape(p); delete[] p; DO(p[0] = 1); break;
  case 9: { Obj *o = new Obj; escape(o); delete o; DO(sink = (char)o->a[one]); break; }
  case 10: p = (char *)malloc(n); q = (char *)realloc(p, n * 2); q[0] = 1; DO(p[0] = 1); break;
  case 11: p = (char *)malloc(n); free(p); DO(free(p)); break;
  case 12: p = new char; escape(p); delete p; DO(delete p); break;
  case 13: p = new char[n]; escape(p); delete[] p; DO(delete[] p); break;
  case 14: p = (char *)malloc(n + 1); DO(free(p + 1)); break;
  case 15: { char b[10]; q = b; DO(free(q)); break; }
  case 16: p = (char *)malloc(n); DO(delete p); break;
  case 17: p = new char[n]; DO(free(p)); break;
  case 18: p = new char; DO(delete[] p); break;
  case 19: p = new char[n]; DO(delete p); break;
  case 20: p = strdup("hello"); DO(p[6] = 0); break;
  case 21: p = (char *)malloc(6); DO(strcpy(p, "hello!")); break;
  case 22: p = (char *)malloc(n); DO(memset(p, 0, n + 1)); break;
  case 23: p = (char *)malloc(n); q = (char *)malloc(n + 1); memset(q, 1, n + 1); DO(memcpy(p, q, n + 1)); break;
  case 24: p = (char *)malloc(n + 10); memset(p, 1, n + 10); DO(memcpy(p + 1, p, n + 5)); break;
  case 25: p = (char *)malloc(100); strcpy(p, "abcdefgh"); DO(strcpy(p + 2, p)); break;
  case 26: p = (char *)malloc(n); free(p); DO(q = (char *)realloc(p, 10)); break;
  case 27: p = (char *)malloc(8); memcpy(p, "abcdefgh", 8); DO(sink = (char)strlen(p)); break;
  case 28: { std::vector<int> v(n); int *a = v.data(); DO(a[n] = one); break; }
  case 29: p = (char *)memalign(16, 32); DO(p[32] = 1); break;
  case 30: { pthread_t t; p = (char *)malloc(n); free(p); static char *sp; sp = p; DO(pthread_create(&t, 0, [](void *) -> void * { sp[0] = 1; return 0; }, 0); pthread_join(t, 0)); break; }
  case 31: { pthread_t t; p = (char *)malloc(n); free(p); static char *sp; sp = p; DO(pthread_create(&t, 0, [](void *) -> void * { free(sp); return 0; }, 0); pthread_join(t, 0)); break; }
  case 32: p = (char *)malloc(3); DO(snprintf(p, 10, "%d", 12345)); break;
  case 33: p = (char *)malloc(n); DO(if (read(open("/dev/zero", O_RDONLY), p, n)) p[n] = 1); break;
  // below the block, with DUMA_PROTECT_BELOW=1
  case 40: p = (char *)malloc(n); DO(p[-1] = 1); break;
  case 41: p = new char[n]; DO(sink = p[-1]); break;
  case 42: p = (char *)calloc(n, 2); DO(p[-(int)r.range(1, 4000)] = 1); break;
  // found at the release
  case 50: p = (char *)memalign(16, 17); p[17] = 1; DO(free(p)); break;
  case 51: p = (char *)malloc(17); p[-1] ^= 1; DO(free(p)); break;
  case 52: p = (char *)malloc(17); p[-3] ^= 0x10; DO(p = (char *)realloc(p, 40)); break;
  case 53: p = new char[33]; p[-2] ^= 1; DO(delete[] p); break;
  // below the block of a page multiple: nothing in between
  default: return 77;
  }
  return 0;
}
