// C07: every schedule of the worker threads of Prove and Verify (reduced field, real poik.c), and of randombytes().
//   prove  sh ns ncpu seeds progress   : every schedule; the proof must be valid
//   verify sh ns ncpu nonces progress  : every schedule x every set of bad responses x several challenges; the verdict must be the sequential one
//   create sh ns ncpu                  : every failing pthread_create
#define _GNU_SOURCE
#pragma clang section bss="mcbss" data="mcdata"
#include "mc.h"
#include "tiny_params.h"
#include "refpoik.h"
#include "mcsched.h"
#include <sys/wait.h>
static uint64_t rnd_seed; static unsigned long rnd0;
int randombytes(unsigned char *buf, unsigned long long len)
{
    unsigned long *ctr = cur >= 0 ? &fb[cur].rnd : &rnd0; uint64_t s = rnd_seed * 1000003 + (cur + 1) * 7919;
    access_(buf, len, 0);
    if (len == 8 || len == 16) for (unsigned k = 0; k < len/8; ++k) { uint64_t w = mc_mix(s * 0x100000001b3ull + (*ctr)++) % MC_P; memcpy(buf + 8*k, &w, 8); }
    else { uint64_t c = (*ctr)++; for (unsigned long long k = 0; k < len; ++k) buf[k] = mc_mix((s ^ 0x5a5a) * 0x100000001b3ull + c * 1000 + k) >> 24; }
    return 0;
}
static size_t sh, ns, unit; static int mine(void) { return unit++ % ns == sh; }
static struct secret SEC; static struct proof PR, Q; static int verdict;
static void b_prove(void) { memset(&PR, 0, sizeof PR); Prove(&SEC, &PR); }
static void b_verify(void) { verdict = Verify(&Q); }
static struct proof FIRST; static void b_again(void) { Verify(&FIRST); verdict = Verify(&Q); }
static char what[300];
static void report(const char *m) { describe(); mc_violation("%s: %s; schedule %s", what, m, trace); }
static unsigned long maxruns = 20000, capped; static time_t deadline;
static int explore1(void (*f)(void), void (*judge)(void))
{
    body = f; prefix_n = 0; limit_depth = 600; unsigned long before = mc_nviol, runs = 0;
    do {
        mc_context("%s", what);
        if (run_once()) {
            ++mc_n_exec; ++mc_n_state;
            if (toolong) report("does not terminate");
            else if (stuck) report("all threads wait for each other");
            else if (early) report("returns while a worker is still running");
            else if (racing) report(race_msg);
            else judge();
        }
        if (mc_nviol > before + 2) return 1;
        if (++runs >= maxruns || (runs % 64 == 0 && time(NULL) > deadline)) return 0;
    } while (next_schedule());
    return 1;
}
// all schedules; where there are too many (code that synchronises more often), those with up to two preemptions
static void explore(void (*f)(void), void (*judge)(void))
{
    if (explore1(f, judge)) return;
    ++capped; for (pbound = 0; pbound <= 2; ++pbound) if (!explore1(f, judge)) break;
    pbound = -1;
}
static void j_prove(void)
{
    ++mc_n_ref; int r = refp_verify(&PR); if (r == RV_BAD) report("the proof is not valid");
    if (r == RV_OK) ++mc_n_nontriv;
    for (int i = 0; i < POIK_REPS; ++i) for (int j = 0; j < i; ++j) {     // no repetition filled from another one's data
        unsigned char *a = PR.resp[i].tag == RESP_RIGHT ? PR.resp[i].right.r3 : PR.resp[i].left.r2, *b = PR.resp[j].tag == RESP_RIGHT ? PR.resp[j].right.r3 : PR.resp[j].left.r2;
        if (!memcmp(a, b, HIDE_BYTES)) report("two repetitions share their randomness");
    }
}
static int want;
static void j_verify(void) { if (want != RV_DC && verdict != (want == RV_OK)) report(verdict ? "accepts a proof that a sequential run rejects" : "rejects a proof that a sequential run accepts"); ++mc_n_nontriv; }
static void start_secret(unsigned long s)
{
    rnd_seed = s; rnd0 = 0; packed_fp2 e; F2 A = F0; size_t i = s * 37 % F2N; while (!ref_good(A = i2f(i))) i = (i + 1) % F2N; if (s % 3 == 0) A = F0; ref_enc(A, e.bytes);
    if (!Generate(&e, &SEC)) { mc_violation("Generate refuses a valid curve"); }
}
int main(int argc, char **argv)
{
    mc_start(); ref_init(); cur = -1; deadline = time(NULL) + (getenv("MC_BUDGET") ? atoi(getenv("MC_BUDGET")) : 40);
    const char *mode = argv[1]; sh = atoi(argv[2]); ns = atoi(argv[3]); mc_ncpu = atoi(argv[4]); if (getenv("MC_RUNS")) maxruns = atol(getenv("MC_RUNS")); unsigned long n = argc > 5 ? atol(argv[5]) : 1; int prog = argc > 6 ? atoi(argv[6]) : 0; win_phase = argc > 7 ? atoi(argv[7]) : -1;
    if (prog) Progress_Indicator_File = fopen("/dev/null", "w");
    if (!strcmp(mode, "prove")) {
        for (unsigned long s = 0; s < n; ++s) { if (!mine()) continue; start_secret(s); snprintf(what, sizeof what, "Prove with %ld workers, %d repetitions, seed %lu", mc_ncpu, POIK_REPS, s); explore(b_prove, j_prove); }
    } else if (!strcmp(mode, "verify")) {
        static struct proof H_; unsigned long made = 0;
        for (unsigned long s = 0; s < n; ++s) {
            if (!mine()) continue;
            start_secret(s); body = b_prove; prefix_n = 0; limit_depth = MAXD; what[0] = 0; run_once(); H_ = PR; ++made;
            for (unsigned bad = 0; bad < 1u << POIK_REPS; ++bad) for (int kind = 0; kind < (bad ? 3 : 1); ++kind) {
                Q = H_;
                for (int i = 0; i < POIK_REPS; ++i) {
                    struct response *r = &Q.resp[i];
                    unsigned char *no = r->tag == RESP_RIGHT ? r->right.r3 : r->left.r2; if (bad) for (int k = 0; k < HIDE_BYTES; ++k) no[k] = mc_mix(s * 1000 + k + i * 77 + bad * 7777) >> 13;
                    if (!(bad >> i & 1)) continue;
                    if (kind == 0) memset(r->tag == RESP_BOTTOM ? (void *) &r->bottom.chain : r->tag == RESP_LEFT ? (void *) &r->left.chain : (void *) &r->right.chain, 0, sizeof(packed_fp2));
                    else if (kind == 1) r->tag = 5;
                    else if (r->tag == RESP_BOTTOM) { F2 t = { 2, 0 }; ref_enc(t, r->bottom.E2.bytes); } else memset(r->tag == RESP_LEFT ? (void *) &r->left.chain.x[POIK_HEIGHT-1] : (void *) &r->right.chain.x[POIK_HEIGHT-1], 0, sizeof(packed_fp2));
                }
                want = refp_verify(&Q); ++mc_n_ref;
                snprintf(what, sizeof what, "Verify with %ld workers, %d repetitions, bad responses %x (kind %d), seed %lu", mc_ncpu, POIK_REPS, bad, kind, s);
                explore(b_verify, j_verify); ++mc_n_trans;
                if (!prog && win_phase < 0 && (bad == 0 || bad == 1u << (POIK_REPS-1))) {     // the same after an earlier call that failed or succeeded
                    win_phase = 1; for (int k = 0; k < 2; ++k) { FIRST = H_; if (k) memset(&FIRST.resp[0].left, 0, sizeof FIRST.resp[0].left); snprintf(what + strlen(what), 60, ", after another call"); explore(b_again, j_verify); } win_phase = -1;
                }
            }
        }
    } else if (!strcmp(mode, "create")) {
        for (int op = 0; op < 2; ++op) for (int k = 0; k < mc_ncpu * 2; ++k) {
            start_secret(op + k); if (op) { body = b_prove; prefix_n = 0; limit_depth = MAXD; run_once(); Q = PR; }
            if (!mine()) continue;
            if (op && k >= mc_ncpu) continue;
            fflush(stdout); pid_t pid = fork();
            if (!pid) { signal(SIGABRT, SIG_DFL); close(2); mc_failed_create = k; snprintf(what, sizeof what, "%s with failing pthread_create %d", op ? "Verify" : "Prove", k); want = RV_OK; mc_nviol = 0; maxruns = 200; explore(op ? b_verify : b_prove, op ? j_verify : j_prove); _exit(mc_nviol ? 1 : 0); }
            int st; waitpid(pid, &st, 0); ++mc_n_state; ++mc_n_exec;
            // stopping with an error is fine, and so is doing without the worker; anything else is not
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) mc_violation("%s does not cope with a worker that cannot be started (%d)", op ? "Verify" : "Prove", k);
            if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) mc_violation("%s is ended by signal %d when worker %d cannot be started", op ? "Verify" : "Prove", WTERMSIG(st), k);
        }
    } else return 3;
    printf("S capped %lu\n", capped); printf("S schedules %lu\nS steps %lu\nS pruned %lu\nS accesses %lu\n", ex_runs, ex_steps, ex_pruned, n_acc); mc_n_trans += ex_steps;
    mc_sample("%s: %lu schedules (%lu cut off as redundant), %lu steps", what, ex_runs, ex_pruned, ex_steps);
    return mc_finish();
}
