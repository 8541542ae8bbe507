// A program that loads a module, lets it allocate and release, and unloads it or not.
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include "duma.h"
int main(int c, char **v) {
  void *h = dlopen(v[1], RTLD_NOW);
  if (!h) return 3;
  char *(*leak)(int) = (char *(*)(int))dlsym(h, "plug_leak");
  void (*rel)(char *) = (void (*)(char *))dlsym(h, "plug_free");
  char *p = leak(123), *q = leak(45);
  rel(leak(6));
  if (v[2][0] == 'c') dlclose(h);
  free(q);
  DUMA_CHECK(p);
  return 0;
}
