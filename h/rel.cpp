// Compiled three ways: with DUMA's old macros (library variant oldmac), for release (DUMA_NO_DUMA, without the
// library) and without any header (PLAIN). All have to say the same.
#include <new>
#include <list>
#include <map>
#include <memory>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#ifdef PLAIN
#define NEW_ELEM(TYPE) new TYPE
#define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
#define NEW_ELEM_NOTHROW(TYPE) new (std::nothrow) TYPE
#define NEW_ARRAY_NOTHROW(TYPE, COUNT) new (std::nothrow) TYPE[COUNT]
#define DEL_ELEM(PTR) delete PTR
#define DEL_ARRAY(PTR) delete[] PTR
#define DEL_ELEM_NOTHROW(PTR) delete PTR
#define DEL_ARRAY_NOTHROW(PTR) delete[] PTR
#define DUMA_newFrame() ((void)0)
#define DUMA_delFrame() ((void)0)
#else
#include "dumapp.h"
#endif
static long live, made, order;
struct Base { int v; Base(int x = 1) : v(x) { ++live; ++made; order = order * 31 + x; } Base(const Base &b) : v(b.v) { ++live; } virtual ~Base() { --live; order = order * 37 + v; } };
struct Leaf : Base { char *p; Leaf(int x = 2) : Base(x), p(NEW_ARRAY(char, 10)) { memset(p, x, 10); } ~Leaf() { DEL_ARRAY(p); } };
struct Tree : Base { Tree *l, *r; Leaf *x; Tree(int n) : Base(n), l(0), r(0), x(NEW_ARRAY(Leaf, 3)) { if (n > 1) { l = NEW_ELEM(Tree(n - 1)); r = NEW_ELEM_NOTHROW(Tree(n - 2)); } } ~Tree() { DEL_ELEM(l); DEL_ARRAY(x); DEL_ELEM_NOTHROW(r); } };
struct Bad { Bad() { throw 7; } };
#define CHECKED(what) printf("%s live %ld made %ld order %lx\n", what, live, made, order & 0xffffffffL)
template <class T> static void both(int n) { T *a = NEW_ELEM(T), *b = NEW_ARRAY(T, n), *c = NEW_ELEM_NOTHROW(T), *d = NEW_ARRAY_NOTHROW(T, n); CHECKED("four"); if (n & 1) DEL_ELEM(a); else DEL_ELEM_NOTHROW(a); DEL_ARRAY(b); if (c) DEL_ELEM_NOTHROW(c); else puts("?"); DEL_ARRAY_NOTHROW(d); CHECKED("none"); }
static int steps(int n) {
  DUMA_newFrame();
  for (int i = 1; i < n; ++i) { both<Base>(i); both<Leaf>(i % 5); both<int>(i); both<std::string>(i); }
  for (int i = 0; i < n; ++i) { Tree *t = NEW_ELEM(Tree(i % 7)); CHECKED("tree"); Base *b = t; DEL_ELEM(b); CHECKED("felled"); }
  Base *z = 0; DEL_ELEM(z); DEL_ARRAY(z); DEL_ELEM_NOTHROW(z);
  for (int i = 0; i < n; ++i) try { Bad *b = i & 1 ? NEW_ELEM(Bad) : NEW_ARRAY(Bad, 3); DEL_ELEM(b); } catch (int k) { order += k; }
  for (int i = 0; i < n; ++i) do DEL_ELEM(NEW_ELEM(Leaf(i))); while (0);
  { std::vector<Leaf *> v; for (int i = 0; i < n; ++i) v.push_back(NEW_ELEM(Leaf(i))); while (!v.empty()) { DEL_ELEM(v.back()); v.pop_back(); } }
  int **m = NEW_ARRAY(int *, n); for (int i = 0; i < n; ++i) { m[i] = NEW_ARRAY(int, i + 1); m[i][i] = i; } for (int i = 0; i < n; ++i) DEL_ARRAY(m[i]); DEL_ARRAY(m);
  char *s = strdup("text"), *t = (char *)malloc(9); strcpy(t, s); strcat(t, "abc"); memmove(t + 1, t, 5); strncpy(s, t, 3); strncat(t, "q", 1); printf("%s %.3s\n", t, s); s = (char *)realloc(s, 50); free(s); free(t);
  s = (char *)calloc(5, 2); printf("%d\n", s[9]); free(s);
  CHECKED("end");
  DUMA_delFrame();
  return 0;
}
#ifndef PLAIN
#include "noduma.h"
#endif
// names of the library are free after noduma.h
struct Own {
  int malloc, free; int calloc(int x) { return x + 1; } int strdup(const char *) { return 2; } int memcpy(int) { return 3; } int realloc, valloc, memalign;
  static void *operator new(size_t n) { ++live; return ::operator new(n); }
  static void operator delete(void *p) { --live; ::operator delete(p); }
  static void *operator new[](size_t n) { ++live; return ::operator new[](n); }
  static void operator delete[](void *p) { --live; ::operator delete[](p); }
  Own() : malloc(1), free(2) {}
};
#if defined(NEW_ELEM) && !defined(PLAIN) || defined(DEL_ELEM) && !defined(PLAIN) || defined(CA_REF) || defined(CA_DEFINE) || defined(CA_DECLARE) || defined(new) || defined(delete) || defined(malloc) || defined(strcpy) || defined(DUMA_FN_PROT_START) || defined(DUMA_FN_PROT_END) || defined(DUMA_FN_PROT_RET) || defined(DUMA_FN_PROT_RET_VOID) || defined(DUMA_SET_FILL) || defined(DUMA_newFrame) && !defined(PLAIN)
#error macros left
#endif
static void own() { Own *a = new Own, *b = new Own[3]; printf("%d %d %ld\n", a->calloc(4), b[2].strdup("x") + b[1].memcpy(1) + a->free, live); delete a; delete[] b; printf("%ld\n", live); }
#ifndef PLAIN
#include "dumapp.h"
#endif
int main() {
  steps(9); steps(4); own(); both<Leaf>(3);
  std::map<std::string, std::list<int> > m; m["x"].push_back(3); printf("%d\n", m["x"].front());
  CHECKED("all"); fflush(stdout);
  return live ? 1 : 42;
}
