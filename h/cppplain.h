#pragma once
#include <new>
#include <stddef.h>
struct Obj {
  static int ctors, dtors, throwat, order, bad; static const void *first, *last;
  int id; long v[9];
  Obj() { if (!first) first = this; last = this; if (ctors == throwat) throw 42; id = ctors++; for (int i = 0; i < 9; ++i) v[i] = id * 100 + i; }
  ~Obj() { for (int i = 0; i < 9; ++i) if (v[i] != id * 100 + i) ++bad; if (order >= 0) { if (id != order - 1) ++bad; order = id; } ++dtors; }
  static void reset(int t = -1) { ctors = dtors = bad = 0; throwat = t; order = -1; first = last = 0; }
};
struct Base { virtual ~Base() {} int a; };
struct Other { virtual ~Other() {} char b[33]; };
struct Derived : Other, Base { char c[1000]; static int gone; Derived() { for (int i = 0; i < 1000; ++i) c[i] = (char)i; } ~Derived() { ++gone; } };
#if __cplusplus >= 201703L
struct alignas(256) Over { char c[300]; static int n; Over() { ++n; } ~Over() { --n; } };
#endif
void *plain_new(size_t n);
void plain_delete(void *p);
void *plain_expr();
void plain_delexpr(void *p);
Obj *plain_obj(int n);
Obj *plain_obj_nothrow(int n);
void plain_delobj(Obj *p, int n);
Base *plain_derived();
void plain_delbase(Base *p);
void *plain_over(int n);
void plain_delover(void *p, int n);
int *plain_ints(size_t n);
int *plain_ints_nothrow(size_t n);
void plain_delints(int *p);
