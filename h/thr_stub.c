// Threads run to completion inside pthread_create(): one particular schedule.  (All schedules are
// explored by the C07 harness.)
#define _GNU_SOURCE
#include <unistd.h>
typedef unsigned long mc_thr;
long mc_ncpu = 2;
long mc_sysconf(int n) { (void) n; return mc_ncpu; }
int mc_pthread_create(mc_thr *t, const void *a, void *(*f)(void *), void *p) { (void) a; *t = 1; f(p); return 0; }
int mc_pthread_join(mc_thr t, void **r) { (void) t; if (r) *r = 0; return 0; }
