// C07: every schedule of concurrent randombytes() calls (the real random.c), with the device opened at the first, second or third attempt.
#define _GNU_SOURCE
#pragma clang section bss="mcbss" data="mcdata"
#include "mc.h"
#include "mcsched.h"
#include "random/random.h"
static int nthr, calls, openfail, opens, shortread; static unsigned char buf[4][4][24]; static int ret[4][4]; static int isopen[64]; static char why[200];
static unsigned char next_byte;
int mc_open(const char *p, int fl, ...) { if (opens++ < openfail) { errno = EMFILE; return -1; } if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) snprintf(why, sizeof why, "opens %s", p); int f = 10 + opens; isopen[f] = 1; return f; }
int mc_close(int f) { sp(OP_OTHER, 0); if (f < 0 || f >= 64 || !isopen[f]) snprintf(why, sizeof why, "closes descriptor %d, which is not open", f); else isopen[f] = 0; return 0; }
ssize_t mc_read(int f, void *b, size_t n)
{
    if (f < 0) { errno = EBADF; return -1; }        // a failed open of another thread may be seen for a while; the read is tried again
    if (f >= 64 || !isopen[f]) { snprintf(why, sizeof why, "reads from descriptor %d, which is not open", f); errno = EBADF; return -1; }
    if (shortread && n > 5) n = 5;
    for (size_t i = 0; i < n; ++i) ((unsigned char *) b)[i] = 1 + next_byte++ % 255;
    access_(b, n, 0); return n;
}
static void *thr(void *p) { int t = (int)(long) p; for (int c = 0; c < calls; ++c) ret[t][c] = randombytes(buf[t][c], 11 + c); return 0; }
static void b(void) { unsigned long id[4]; for (long t = 0; t < nthr; ++t) mc_pthread_create(&id[t], NULL, thr, (void *) t); for (int t = 0; t < nthr; ++t) mc_pthread_join(id[t], NULL); }
int main(int argc, char **argv)
{
    mc_start(); cur = -1; mc_ncpu = 1; int sh = atoi(argv[1]), ns = atoi(argv[2]), u = 0; unsigned long capped = 0; time_t deadline = time(NULL) + (getenv("MC_BUDGET") ? atoi(getenv("MC_BUDGET")) : 40);
    int maxthr = atoi(argv[3]);
    for (nthr = 1; nthr <= maxthr; ++nthr) for (calls = 1; calls <= (nthr < 3 ? 3 : 1); ++calls) for (openfail = 0; openfail < (nthr < 3 ? 3 : 2); ++openfail) for (shortread = 0; shortread < 2; ++shortread) {
        if (nthr == 3 && (shortread || openfail) && maxthr < 4) continue;
        if (nthr == 2 && calls == 3 && maxthr < 4) continue;
        if (nthr == 4) continue;
        if (u++ % ns != sh) continue;
        body = b; prefix_n = 0; limit_depth = 600; unsigned long before = mc_nviol;
        do {
            memset(buf, 0, sizeof buf); memset(ret, 0xff, sizeof ret); opens = 0; memset(isopen, 0, sizeof isopen); why[0] = 0; next_byte = 0;
            if (!run_once()) continue;
            ++mc_n_exec; ++mc_n_state; ++mc_n_nontriv; describe();
            if (toolong || stuck) mc_violation("%d threads, %d calls each, %d failing opens: randombytes does not return; schedule %s", nthr, calls, openfail, trace);
            else if (racing) mc_violation("%d threads calling randombytes: %s; schedule %s", nthr, race_msg, trace);
            else if (why[0]) mc_violation("%d threads calling randombytes: %s; schedule %s", nthr, why, trace);
            else for (int t = 0; t < nthr; ++t) for (int c = 0; c < calls; ++c) { if (ret[t][c]) continue; for (int i = 0; i < 24; ++i) if (!buf[t][c][i] != (i >= 11 + c)) { mc_violation("%d threads calling randombytes: byte %d of a request for %d bytes is %s; schedule %s", nthr, i, 11 + c, i < 11 + c ? "not filled" : "written", trace); break; } }
            if (mc_nviol > before + 2) break;
            if (time(NULL) > deadline) { ++capped; break; }
        } while (next_schedule());
    }
    printf("S capped %lu\n", capped); printf("S schedules %lu\nS steps %lu\nS pruned %lu\n", ex_runs, ex_steps, ex_pruned); mc_n_trans = ex_steps;
    return mc_finish();
}
