// C08 (b): the random source reports failure at the k-th request, for every k, once or for good.
//   kem sh ns | poik sh ns nseeds
#define _GNU_SOURCE
#define MC_NOSIG
#ifdef MC_POIK
#include "poik.h"
#endif
#include "tiny_api.h"
#include "rnd.h"
#include <sys/wait.h>
#include <fcntl.h>
extern unsigned mc_rep_mode;
enum { DONE_OK = 10, DONE_FAIL = 11, NOT_REACHED = 12 };
static int child(int (*f)(void *), void *x, unsigned long seed, long k, int forever)
{   // runs f with failure at request k; returns DONE_OK / DONE_FAIL / NOT_REACHED or 100 + signal
    fflush(stdout); pid_t p = fork();
    if (!p) { int n = open("/dev/null", 2); if (n >= 0) dup2(n, 2); alarm(60); rnd_reset(seed); rnd_fail_at = k; rnd_fail_forever = forever; int r = f(x); if (rnd_n <= (unsigned long) k) _exit(NOT_REACHED); _exit(r ? DONE_OK : DONE_FAIL); }
    int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
}
static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], ss[CRYPTO_BYTES];
#ifndef MC_POIK
static int op_keypair(void *x) { return crypto_kem_keypair_TINY(pk, sk) == 0; }
static int op_enc(void *x) { return crypto_kem_enc_TINY(ct, ss, pk) == 0; }
#else
static struct secret sec; static struct proof prf; static packed_fp2 E0;
static int op_gen(void *x) { return Generate(&E0, &sec); }
static int op_prove(void *x) { Prove(&sec, &prf); return 1; }
static int op_verify(void *x) { return Verify(&prf); }
#endif
static void sweep(const char *name, int (*f)(void *), unsigned long seed, size_t sh, size_t ns, int strict)
{
    int pf[2]; if (pipe(pf)) exit(3); fflush(stdout);
    pid_t p = fork(); if (!p) { rnd_reset(seed); f(0); long v = rnd_n; (void) !write(pf[1], &v, sizeof v); _exit(0); }
    long lim = 0; int st; waitpid(p, &st, 0); if (st || read(pf[0], &lim, sizeof lim) != sizeof lim) { mc_violation("%s ends abnormally (%x) in run %lu with a working random source", name, st, seed); return; } close(pf[0]); close(pf[1]);
    for (int forever = 0; forever < 2; ++forever) for (long k = 0; ; ++k) {
        int mine = (size_t) k % ns == sh;
        if (k >= lim) break;
        if (!mine) continue;
        int r = child(f, 0, seed, k, forever); ++mc_n_exec; ++mc_n_trans; ++mc_n_state;
        if (r == NOT_REACHED) break;
        ++mc_n_nontriv;
        if (r == DONE_OK) mc_violation("%s completes normally although the random source failed at request %ld%s (run %lu)", name, k, forever ? " and all later ones" : "", seed);
        else if (r >= 100 && r != 100 + SIGABRT) mc_violation("%s ends by signal %d when the random source fails at request %ld%s (run %lu)", name, r - 100, k, forever ? " and all later ones" : "", seed);
        else if (strict && r != DONE_FAIL) mc_violation("%s does not report the failure of request %ld (status %d)", name, k, r);
        if (k < 2) mc_sample("%s: failure at request %ld -> %s", name, k, r == DONE_FAIL ? "error" : r == 100 + SIGABRT ? "abort" : "exit");
    }
}
int main(int argc, char **argv)
{
    mc_start(); size_t sh = atoi(argv[2]), ns = atoi(argv[3]);
#ifndef MC_POIK
    rnd_reset(5); crypto_kem_keypair_TINY(pk, sk);
    sweep("key generation", op_keypair, 1, sh, ns, 1); sweep("encapsulation", op_enc, 2, sh, ns, 1);
#else
    unsigned long n = strtoul(argv[4], 0, 0);
    for (unsigned long s = 0; s < n; ++s) {
        rnd_reset(s + 1); if (!Generate(&E0, &sec)) exit(3); Prove(&sec, &prf);
        sweep("Generate", op_gen, s + 1, sh, ns, 0); sweep("Prove", op_prove, s + 100, sh, ns, 0); sweep("Verify", op_verify, s + 200, sh, ns, 0);
    }
#endif
    return mc_finish();
}
