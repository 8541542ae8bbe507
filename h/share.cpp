// Several processes, and several threads of one, log to the same places at the same time.
#include "vh.h"
#include "api.h"
#include <pthread.h>
static int n;
static void *work(void *a) {
  char f[40];
  snprintf(f, sizeof f, "w%ld.c", (long)a);
  for (int i = 1; i <= n; ++i) a_free(a_malloc((size_t)i, f, i), f, 500000 + i);
  return 0;
}
int main() {
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  n = (int)env_i("VT_N", 100);
  int k = (int)env_i("VT_PROCS", 5), t = (int)env_i("VT_THREADS", 0);
  int bar[2];
  if (pipe(bar)) return 41;
  for (int i = 0; i < k; ++i)
    if (!fork()) {
      char c; close(bar[1]);
      if (read(bar[0], &c, 1)) {}           // all at once
      work((void *)(long)i);
      _exit(0);
    }
  close(bar[1]);
  pthread_t th[16];
  for (int i = 0; i < t; ++i) pthread_create(&th[i], 0, work, (void *)(long)(100 + i));
  for (int i = 0; i < t; ++i) pthread_join(th[i], 0);
  int bad = 0, st;
  while (wait(&st) > 0) bad |= st;
  stat_("done %d", !bad);
  _exit(bad ? 5 : 0);
}
