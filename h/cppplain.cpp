// A translation unit that knows nothing of the library.
#include "cppplain.h"
int Obj::ctors = 0, Obj::dtors = 0, Obj::throwat = -1; const void *Obj::first = 0, *Obj::last = 0; int Obj::order = 0, Obj::bad = 0;
void *plain_new(size_t n) { return ::operator new(n); }
void plain_delete(void *p) { ::operator delete(p); }
void *plain_expr() { return new int(7); }
void plain_delexpr(void *p) { delete (int *)p; }
Obj *plain_obj(int n) { return n < 0 ? new Obj : new Obj[n]; }
Obj *plain_obj_nothrow(int n) { return n < 0 ? new (std::nothrow) Obj : new (std::nothrow) Obj[n]; }
void plain_delobj(Obj *p, int n) { if (n < 0) delete p; else delete[] p; }
Base *plain_derived() { return new Derived; }
void plain_delbase(Base *p) { delete p; }
void *plain_over(int n) {
#if __cplusplus >= 201703L
  return n < 0 ? (void *)new Over : (void *)new Over[n];
#else
  (void)n; return 0;
#endif
}
void plain_delover(void *p, int n) {
#if __cplusplus >= 201703L
  if (n < 0) delete (Over *)p; else delete[] (Over *)p;
#else
  (void)p; (void)n;
#endif
}
int *plain_ints(size_t n) { return new int[n]; }
int *plain_ints_nothrow(size_t n) { return new (std::nothrow) int[n]; }
void plain_delints(int *p) { delete[] p; }
