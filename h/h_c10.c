// C10: the real prove.c and verify.c (main renamed) over a reduced field, every run in a child process
// with its own stdin and stdout; all bounded inputs, truncations, changes and output limits.
//   chain sh ns nseeds    : prove --initial | verify | prove | verify ...
//   curves sh ns          : every coefficient as the prover's input
//   ptext sh ns           : truncated and altered prover input
//   vtext sh ns full      : truncated and altered proofs
//   out sh ns             : output limited to every number of bytes, closed and full outputs, failing random source
#define _GNU_SOURCE
#include "refpoik.h"
#include "rnd.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <ctype.h>
int prove_main(int, char **); int verify_main(int, char **);
static size_t sh, ns, unit;
static int mine(void) { return unit++ % ns == sh; }
enum { PROVE, VERIFY };
enum { O_FILE, O_CLOSED, O_FULL, O_RDONLY_, O_PIPE };
typedef struct { int status; char *out; size_t n; } Res;     // status: exit code, or 1000+signal
static long limit = -1; static int outmode = O_FILE, in_closed, in_pipe;
static Res run(int which, const char *arg, const char *in, size_t n)
{
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0);
    if (fi < 0 || fo < 0) exit(3);
    if (n && write(fi, in, n) != (ssize_t) n) exit(3);
    lseek(fi, 0, SEEK_SET);
    int pp[2] = {-1,-1}; if (in_pipe && pipe(pp)) exit(3);
    fflush(stdout);
    pid_t feeder = 0;
    if (in_pipe && !(feeder = fork())) { close(pp[0]); for (size_t i = 0; i < n; ) { size_t k = n - i < (size_t) in_pipe ? n - i : (size_t) in_pipe; if (write(pp[1], in + i, k) != (ssize_t) k) _exit(0); i += k; } _exit(0); }
    pid_t pid = fork();
    if (!pid) {
        signal(SIGXFSZ, SIG_IGN); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGPIPE, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(60);
        dup2(in_pipe ? pp[0] : fi, 0); if (in_pipe) { close(pp[0]); close(pp[1]); } if (in_closed) close(0);
        dup2(fo, 1); int e = open("/dev/null", O_WRONLY); dup2(e, 2);
        if (outmode == O_CLOSED) close(1);
        if (outmode == O_FULL) { int d = open("/dev/full", O_WRONLY); if (d < 0) _exit(200); dup2(d, 1); }
        if (outmode == O_RDONLY_) { int d = open("/dev/null", O_RDONLY); dup2(d, 1); }
        if (limit >= 0) { struct rlimit r = { limit, limit }; setrlimit(RLIMIT_FSIZE, &r); }
        char *av[3] = { which == PROVE ? "prove" : "verify", (char *) arg, NULL };
        clearerr(stdin);
        setvbuf(stdout, NULL, _IOFBF, 4096);
        exit((which == PROVE ? prove_main : verify_main)(arg ? 2 : 1, av) & 0xff);
    }
    if (in_pipe) { close(pp[0]); close(pp[1]); }
    int st; Res r; waitpid(pid, &st, 0); if (feeder) { kill(feeder, SIGKILL); int q; waitpid(feeder, &q, 0); }
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.n = lseek(fo, 0, SEEK_END); r.out = malloc(r.n + 1); if (pread(fo, r.out, r.n, 0) != (ssize_t) r.n) exit(3); r.out[r.n] = 0;
    close(fi); close(fo); ++mc_n_exec; ++mc_n_trans;
    return r;
}
static int parse(const char *t, size_t n, struct proof *p) { FILE *f = fmemopen((void *)(n ? t : " "), n ? n : 1, "r"); int r = Parse(f, p); fclose(f); return r; }
static char *fp2text(const packed_fp2 *a, size_t *n) { char *t; FILE *f = open_memstream(&t, n); Dump_Fp2(f, a); fclose(f); return t; }
static struct proof PR;
// a finished prover run: complete valid proof from the named curve
static bool check_proof(const char *what, Res r, F2 A)
{
    if (r.status) { mc_violation("%s: the prover exits with %d", what, r.status); return false; }
    if (!parse(r.out, r.n, &PR)) { mc_violation("%s: the prover exits with 0 but its output is not a complete proof", what); return false; }
    bool canon = true; F2 E0 = ref_dec(PR.E0.bytes, &canon); ++mc_n_ref;
    if (!feq(mont_j(E0), mont_j(A))) { mc_violation("%s: the proof starts at another curve", what); return false; }
    if (refp_verify(&PR) == RV_BAD) { mc_violation("%s: the prover exits with 0 but its proof is not valid", what); return false; }
    return true;
}
static void check_verified(const char *what, const Res *v, const struct proof *p, int want)
{   // want: RV_OK must be accepted, RV_BAD must be refused
    if (v->status >= 1000) { mc_violation("%s: the verifier is ended by signal %d", what, v->status - 1000); return; }
    if (v->status == 0) {
        if (want == RV_BAD) { mc_violation("%s: the verifier exits with 0", what); return; }
        size_t a, b; char *x = fp2text(&p->E0, &a), *y = fp2text(&p->E1, &b);
        if (v->n != a + b || memcmp(v->out, x, a) || memcmp(v->out + a, y, b)) mc_violation("%s: the verifier exits with 0 but prints something else than the two curves of the proof: %.200s", what, v->out);
        free(x); free(y); ++mc_n_nontriv;
    } else {
        if (want == RV_OK) mc_violation("%s: the verifier exits with %d on a valid proof", what, v->status);
        if (v->n) mc_violation("%s: the verifier exits with %d but prints: %.200s", what, v->status, v->out);
    }
}
static void bad_verify(const char *what, const char *t, size_t n)
{
    static struct proof q; mc_context("%s", what); ++mc_n_state;
    int want = parse(t, n, &q) ? refp_verify(&q) : RV_BAD; ++mc_n_ref;
    Res v = run(VERIFY, NULL, t, n); check_verified(what, &v, &q, want); free(v.out);
}
int main(int argc, char **argv)
{
    mc_start(); ref_init(); alarm(800);
    const char *mode = argv[1]; sh = atoi(argv[2]); ns = atoi(argv[3]); unsigned long n4 = argc > 4 ? strtoul(argv[4], 0, 0) : 1;
    char what[512];
    if (!strcmp(mode, "chain")) {
        for (unsigned long s = 0; s < n4; ++s) {
            if (!mine()) continue;
            char *in = strdup("garbage that --initial must not read"); size_t nin = strlen(in); F2 A = F0; const char *arg = "--initial";
            in_pipe = s % 3 == 1 ? 1 + s % 7 : 0;
            for (int step = 0; step < 4; ++step) {
                rnd_reset(s * 977 + step * 31 + 5); ++mc_n_state;
                snprintf(what, sizeof what, "seed %lu, run %d of the chain", s, step); mc_context("%s", what);
                Res r = run(PROVE, arg, in, nin); if (!check_proof(what, r, A)) { free(r.out); break; }
                struct proof keep = PR; int rv = refp_verify(&keep); Res v = run(VERIFY, NULL, r.out, r.n); check_verified(what, &v, &keep, rv); if (rv != RV_OK) { free(r.out); free(v.out); break; }
                bool c = true; A = ref_dec(keep.E1.bytes, &c);
                // the second line becomes the next input, alone
                char *nl = v.n ? memchr(v.out, '\n', v.n) : NULL; free(in); in = strdup(nl ? nl + 1 : ""); nin = strlen(in); arg = NULL; ++mc_n_nontriv;
                free(r.out); free(v.out);
            }
            free(in); in_pipe = 0;
        }
        mc_sample("chains of four prover and verifier runs, %lu seeds", n4);
    } else if (!strcmp(mode, "curves")) {
        for (size_t i = 0; i < F2N; ++i) {
            if (!mine()) continue;
            F2 A = i2f(i); packed_fp2 a; ref_enc(A, a.bytes); size_t n; char *t = fp2text(&a, &n); rnd_reset(i + 3); ++mc_n_state;
            snprintf(what, sizeof what, "curve %u+%ui over p=%d", A.a, A.b, P_); mc_context("%s", what);
            Res r = run(PROVE, NULL, t, n);
            if (ref_good(A)) { check_proof(what, r, A); ++mc_n_nontriv; }
            else { if (!r.status || r.status >= 1000) mc_violation("%s: the prover ends with %d for an inadmissible curve", what, r.status); if (r.n) mc_violation("%s: the prover refuses the curve but prints output", what); }
            free(r.out); free(t);
        }
    } else if (!strcmp(mode, "ptext")) {
        packed_fp2 a; F2 A; size_t i = F2N / 3; do A = i2f(++i); while (!ref_good(A)); ref_enc(A, a.bytes); size_t n; char *t = fp2text(&a, &n), *u = malloc(n + 8); size_t core = n; while (isspace((unsigned char) t[core-1])) --core;
        for (size_t L = 0; L < core; ++L) if (mine()) { rnd_reset(L); ++mc_n_state; Res r = run(PROVE, NULL, t, L); if (!r.status || r.n) mc_violation("the prover ends with %d and %zu bytes of output for a curve cut to %zu characters", r.status, r.n, L); free(r.out); }
        for (size_t k = 0; k < core; ++k) for (int c = 0; c < 256; ++c) {
            if (c == (unsigned char) t[k] || !mine()) continue;
            memcpy(u, t, n); u[k] = c; rnd_reset(k); ++mc_n_state; snprintf(what, sizeof what, "curve text with character %d at %zu", c, k); mc_context("%s", what);
            packed_fp2 b; FILE *f = fmemopen(u, n, "r"); bool ok = Parse_Fp2(f, &b), canon = true; fclose(f); F2 B = ok ? ref_dec(b.bytes, &canon) : F0; if (!canon) continue;
            if (ok && isxdigit((unsigned char) t[k]) && !isxdigit(c)) mc_violation("%s is accepted as a curve", what);
            Res r = run(PROVE, NULL, u, n);
            if (ok && ref_good(B)) check_proof(what, r, B);
            else if (!r.status || r.status >= 1000 || r.n) mc_violation("%s: the prover ends with %d and %zu bytes of output", what, r.status, r.n);
            free(r.out);
        }
        in_closed = 1; if (mine()) { Res r = run(PROVE, NULL, "", 0); if (!r.status || r.n) mc_violation("the prover ends with %d without an input", r.status); free(r.out); }
        if (mine()) { Res r = run(VERIFY, NULL, "", 0); if (!r.status || r.n) mc_violation("the verifier ends with %d without an input", r.status); free(r.out); }
        if (mine()) { rnd_reset(9); Res r = run(PROVE, "--initial", "", 0); check_proof("--initial without an input", r, F0); free(r.out); }
    } else if (!strcmp(mode, "vtext")) {
        for (unsigned long s = 0; s < 2; ++s) {
            rnd_reset(s + 77); Res r = run(PROVE, "--initial", "", 0); if (r.status) { mc_violation("prover ends with %d", r.status); return mc_finish(); }
            char *t = r.out, *u = malloc(r.n + 8); size_t n = r.n, core = n; while (isspace((unsigned char) t[core-1])) --core;
            for (size_t L = 0; L <= n; ++L) if (mine()) { snprintf(what, sizeof what, "proof cut to %zu of %zu characters", L, n); bad_verify(what, t, L); }
            for (size_t k = 0; k < core; ++k) {
                for (const char *q = n4 ? "0123456789abcdefAg,x- \n+" : "05fg,- "; *q; ++q) { if (*q == t[k] || !mine()) continue; memcpy(u, t, n); u[k] = *q; snprintf(what, sizeof what, "proof with '%c' at offset %zu", *q, k); bad_verify(what, u, n); }
                if (mine()) { memcpy(u, t, k); memcpy(u + k, t + k + 1, n - k - 1); snprintf(what, sizeof what, "proof without the character at offset %zu", k); bad_verify(what, u, n - 1); }
            }
            free(t); free(u);
        }
    } else if (!strcmp(mode, "out")) {
        rnd_reset(123); Res r = run(PROVE, "--initial", "", 0); if (!check_proof("--initial", r, F0)) return mc_finish();
        struct proof keep = PR; Res v0 = run(VERIFY, NULL, r.out, r.n); check_verified("limit", &v0, &keep, RV_OK);
        for (size_t L = 0; L <= r.n + 1; ++L) if (mine()) {
            limit = L; rnd_reset(123); ++mc_n_state; mc_context("prover output limited to %zu bytes", L); Res q = run(PROVE, "--initial", "", 0); limit = -1;
            if (L < r.n ? !q.status : q.status != 0) mc_violation("the prover exits with %d when %zu of %zu bytes of output fit", q.status, L, r.n); free(q.out); }
        for (size_t L = 0; L <= v0.n + 1; ++L) if (mine()) {
            limit = L; ++mc_n_state; mc_context("verifier output limited to %zu bytes", L); Res q = run(VERIFY, NULL, r.out, r.n); limit = -1;
            if (L < v0.n ? !q.status : q.status != 0) mc_violation("the verifier exits with %d when %zu of %zu bytes of output fit", q.status, L, v0.n); free(q.out); }
        for (outmode = O_CLOSED; outmode <= O_RDONLY_; ++outmode) if (mine()) {
            rnd_reset(123); Res q = run(PROVE, "--initial", "", 0); if (!q.status) mc_violation("the prover exits with 0 although its output cannot be written (case %d)", outmode);
            q = run(VERIFY, NULL, r.out, r.n); if (!q.status) mc_violation("the verifier exits with 0 although its output cannot be written (case %d)", outmode); ++mc_n_state; }
        outmode = O_FILE;
        for (unsigned long k = 0; ; ++k) { rnd_reset(123); rnd_fail_at = k; Res q = run(PROVE, "--initial", "", 0); ++mc_n_state; if (q.status == 0) { if (q.n != r.n || memcmp(q.out, r.out, r.n)) mc_violation("the prover exits with 0 although random request %lu failed", k); break; } if (q.n == r.n) mc_violation("complete proof printed although request %lu failed", k); free(q.out); if (k > 5000) break; }
    } else return 3;
    return mc_finish();
}
