// C02: a cheating prover that may put any coordinates into a response and recompute every hash.
// One repetition; all responses up to the bound; the verdict must equal the reference verdict.
//   full <tag> sh ns <K>    : every (x_0, x_1) in F_p^2 x F_p^2 (chains of length 2)
//   deep <tag> sh ns <K>    : at every position every kernel generator of full order plus two
//                             representatives of every other order class (any chain length)
#define _GNU_SOURCE
#include "refpoik.h"
#include "rnd.h"
extern unsigned mc_rep_mode;
static int tag, l, n, K; static F2 start; static struct proof prf; static unsigned long unit; static size_t sh, ns;
static F2 other;
static packed_fp2 *slot(int k) { struct response *r = &prf.resp[0]; return tag < 0 ? &r->left.chain.x[k] : tag > 0 ? &r->right.chain.x[k] : &r->bottom.chain.x[k]; }
static void setup(void)
{
    memset(&prf, 0, sizeof prf);
    struct response *r = &prf.resp[0]; r->tag = tag;
    ref_enc(tag < 0 ? start : other, prf.E0.bytes); ref_enc(tag > 0 ? start : other, prf.E1.bytes);
    if (!tag) ref_enc(start, r->bottom.E2.bytes);
}
static unsigned long naccept;
static void leaf(const F2 *x)
{
    int st = ref_path(start, x, n, l, NULL, NULL);
    struct response *r = &prf.resp[0];
    for (int k = 0; k < n; ++k) ref_enc(x[k], slot(k)->bytes);
    ++mc_n_state;
    for (int t = 0; t < K; ++t) {
        unsigned char *rr = tag < 0 ? r->left.r2 : tag > 0 ? r->right.r3 : r->bottom.r3;
        rr[HIDE_BYTES-1] = t; rr[0] = unit;
        int want = st == RV_BAD ? RV_BAD : refp_verify(&prf);
        mc_context("Verify tag=%d start=%u+%ui x0=%u+%ui x1=%u+%ui t=%d rep=%u", tag, start.a, start.b, x[0].a, x[0].b, n > 1 ? x[1].a : 0, n > 1 ? x[1].b : 0, t, mc_rep_mode);
        rnd_reset(t + 31 * unit);
        bool got = Verify(&prf);
        ++mc_n_exec; mc_n_trans += n; naccept += got;
        if (want != RV_DC && got != (want == RV_OK)) {
            char b[400] = ""; for (int k = 0; k < n; ++k) sprintf(b + strlen(b), " %u+%ui", x[k].a, x[k].b);
            mc_violation("p=%d tag %d start A=%u+%ui kernels%s: Verify says %d, reference says %s (path %s)", P_, tag, start.a, start.b, b, got, want == RV_OK ? "valid" : "invalid", st ? "genuine" : "not a genuine full non-backtracking path");
            return;
        }
        if (want == RV_OK) { ++mc_n_ref; ++mc_n_nontriv; }
    }
}
// generators + representatives of other orders on A
static size_t cand_raw(F2 A, int l, F2 *out, size_t max);
static const F2 *cand(F2 A, int l, size_t *m)
{
    static F2 **tab; static size_t *cnt;
    if (!tab) { tab = calloc(F2N, sizeof *tab); cnt = calloc(F2N, sizeof *cnt); }
    size_t i = f2i(A);
    if (!tab[i]) { F2 *o = malloc(4096 * sizeof *o); cnt[i] = cand_raw(A, l, o, 4096); tab[i] = o; }
    *m = cnt[i]; return tab[i];
}
static size_t cand_raw(F2 A, int l, F2 *out, size_t max)
{
    size_t c = 0; int e = l == 2 ? MC_E2 : MC_E3; int seen[64] = {0};
    for (size_t i = 0; i < F2N; ++i) {
        F2 x = i2f(i); W w = wmont(A);
        if (ref_step(A, x, l)->ok) { if (c < max) out[c++] = x; continue; }
        // class: 0 = not on the curve, else 1 + l-valuation + 8*[cofactor part nontrivial]
        int cl = 0; F2 r = wrhs(w, x);
        if (fissq(r)) {
            Pt Q = { x, fsqrt_(r), false };
            unsigned long le = 1; for (int k = 0; k < e; ++k) le *= l;
            Pt co = pmul(w, le, Q); Pt lp = pmul(w, (P_ + 1) / le, Q); int v = 0;
            while (!lp.inf) { lp = pmul(w, l, lp); ++v; }
            cl = 1 + v + 8 * !co.inf;
        }
        if (seen[cl]++ < 2 && c < max) out[c++] = x;
    }
    return c;
}
static void deep(F2 cur, F2 *x, int d)
{
    if (d == n) { if (unit++ % ns == sh) leaf(x); return; }
    size_t m; const F2 *c = cand(cur, l, &m);
    for (size_t i = 0; i < m; ++i) {
        x[d] = c[i];
        const Step *s = ref_step(cur, c[i], l);
        bool ok = s->ok; F2 B = s->B;
        deep(ok ? B : cur, x, d + 1);
    }
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; tag = atoi(argv[2]); sh = atoi(argv[3]); ns = atoi(argv[4]); K = atoi(argv[5]);
    size_t nstart = argc > 6 ? strtoul(argv[6], 0, 0) : 1000; mc_rep_mode = argc > 7 ? atoi(argv[7]) : 0;
    alarm(850);
    l = tag ? 3 : 2; n = tag ? POIK_HEIGHT : POIK_WIDTH; other = f2(6, 0);
    F2 x[8]; size_t done = 0;
    for (size_t i = 0, q = 0; i < F2N && done < nstart; ++i) {
        // start models spread over the field
        q = (i * 104729u) % F2N; start = i2f(q);
        if (!ref_good(start)) continue;
        ++done; setup(); unsigned long u0 = unit;
        if (!strcmp(mode, "deep")) deep(start, x, 0);
        else for (size_t a = 0; a < F2N; ++a) for (size_t b = 0; b < F2N; ++b) {
            if (unit++ % ns != sh) continue;
            x[0] = i2f(a); x[1] = i2f(b);
            leaf(x);
        }
        mc_sample("tag %d start A=%u+%ui: %lu responses, %lu accepted so far", tag, start.a, start.b, unit - u0, naccept);
    }
    printf("S accepted %lu\n", naccept);
    return mc_finish();
}
