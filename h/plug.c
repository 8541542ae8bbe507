// Module of plugm.c: allocates with positions whose file name lies in the module.
#include <stdlib.h>
#include "duma.h"
char *plug_leak(int n) {
#line 77 "plugname.c"
  return malloc((size_t)n);
}
void plug_free(char *p) {
#line 78 "plugname.c"
  free(p);
}
