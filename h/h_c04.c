// C04: the verdict on a curve coefficient, for every coefficient of the reduced field and every
// choice of the first random points.  argv: mode shard nshards [limit]
//   gen2: every A, every (x1,x2) pair of first two points on the curve       (through Generate)
//   gen1: every A, every x1                                                  (through Generate)
//         both also: every point drawn forty times in a row
//   place: every A as E0, E1 and E2 of an otherwise valid proof              (through Verify)
#define _GNU_SOURCE
#include "refpoik.h"
#include "rnd.h"
static unsigned long to_mont(unsigned v) { return (unsigned long) v * MC_R1 % MC_P; }
static void plan_x(int k, F2 x) { rnd_plan_word(2*k, to_mont(x.a)); rnd_plan_word(2*k+1, to_mont(x.b)); }
static F2 oncurve[1 << 20]; static size_t noc;
static void one(F2 A, F2 x1, bool h2, F2 x2, bool want, int seed)
{
    packed_fp2 e; struct secret s;
    ref_enc(A, e.bytes);
    mc_context("Generate A=%u+%ui x1=%u+%ui x2=%u+%ui seed=%d", A.a, A.b, x1.a, x1.b, x2.a, x2.b, seed);
    rnd_reset(1000 + seed); plan_x(0, x1); if (h2) plan_x(1, x2);
    bool got = Generate(&e, &s);
    ++mc_n_exec; mc_n_trans += rnd_n;
    if (got != want) mc_violation("curve A=%u+%u*i over p=%d: Generate %s, but the curve is %s; points drawn x1=%u+%ui x2=%u+%ui", A.a, A.b, P_, got ? "accepts" : "rejects", want ? "admissible" : "not admissible", x1.a, x1.b, x2.a, x2.b);
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; size_t sh = atoi(argv[2]), ns = atoi(argv[3]);
    size_t lim = argc > 4 ? strtoul(argv[4], 0, 0) : (size_t) -1;
    alarm(argc > 5 ? atoi(argv[5]) : 800);
    if (!strncmp(mode, "gen", 3)) {
        for (size_t i = 0; i < F2N; ++i) {
            if (i % ns != sh) continue;
            F2 A = i2f(i); bool want = ref_good(A); W w = wmont(A);
            ++mc_n_state; mc_n_nontriv += want;
            noc = 0;
            for (size_t k = 0; k < F2N; ++k) if (fissq(wrhs(w, i2f(k)))) oncurve[noc++] = i2f(k);
            if (!strcmp(mode, "gen1")) {
                for (size_t k = 0; k < F2N && k < lim; ++k) one(A, i2f(k), false, F0, want, 0);
            } else {
                for (size_t k = 0; k < noc; ++k) for (size_t m = 0; m < noc && m < lim; ++m) one(A, oncurve[k], true, oncurve[m], want, 0);
            }
            for (size_t k = 0; k < noc; ++k) {        // the same point many times over: a long run of uninformative draws
                packed_fp2 e; struct secret sec; ref_enc(A, e.bytes); rnd_reset(2000 + k);
                for (int z = 0; z < 40; ++z) plan_x(z, oncurve[k]);
                mc_context("Generate A=%u+%ui, point x=%u+%ui drawn 40 times", A.a, A.b, oncurve[k].a, oncurve[k].b);
                bool got = Generate(&e, &sec); ++mc_n_exec; mc_n_trans += rnd_n;
                if (got != want) mc_violation("curve A=%u+%u*i over p=%d: Generate %s, but the curve is %s; x=%u+%ui drawn 40 times", A.a, A.b, P_, got ? "accepts" : "rejects", want ? "admissible" : "not admissible", oncurve[k].a, oncurve[k].b);
            }
            for (int s = 1; s < 8; ++s) one(A, oncurve[s % noc], false, F0, want, s);
            if (want) mc_sample("A=%u+%ui admissible, accepted for %zu first points", A.a, A.b, noc);
        }
    } else {
        // an otherwise valid opening of each kind
        for (size_t i = 0; i < F2N; ++i) {
            if (i % ns != sh) continue;
            F2 A = i2f(i), G = f2(6, 0); bool good = ref_good(A);
            ++mc_n_state; mc_n_nontriv += good;
            for (int place = 0; place < 3; ++place) for (int tag = -1; tag <= 1; ++tag) {
                if (place == 2 && tag) continue;
                struct proof prf; memset(&prf, 0, sizeof prf);
                F2 E0 = place == 0 ? A : G, E1 = place == 1 ? A : G, E2 = place == 2 ? A : G;
                ref_enc(E0, prf.E0.bytes); ref_enc(E1, prf.E1.bytes);
                struct response *r = &prf.resp[0]; r->tag = tag;
                // walk with the first admissible kernels (coordinates on a bad curve are arbitrary but well-ordered there if possible)
                int l = tag ? 3 : 2, n = tag ? POIK_HEIGHT : POIK_WIDTH;
                F2 cur = tag < 0 ? E0 : tag > 0 ? E1 : E2, xs[8];
                for (int k = 0; k < n; ++k) {
                    bool found = false; bool gc = ref_good(cur);
                    for (size_t q = 0; q < F2N && !found; ++q) {
                        xs[k] = i2f(q);
                        if (gc) {
                            if (!ref_step(cur, xs[k], l)->ok) continue;
                            if (ref_path(tag < 0 ? E0 : tag > 0 ? E1 : E2, xs, k+1, l, NULL, NULL) == RV_BAD) continue;
                            found = true; cur = ref_step(cur, xs[k], l)->B;
                        } else {    // a point of the right order in the group of the bad curve, if it has one
                            W w = wmont(cur); F2 rr = wrhs(w, xs[k]);
                            if (!fissq(rr) || fz(rr)) continue;
                            Pt K = { xs[k], fsqrt_(rr), false };
                            unsigned long o = 1; for (int z = 0; z < (l == 2 ? MC_E2 : MC_E3) - 1; ++z) o *= l;
                            Pt T = pmul(w, o, K);
                            found = !T.inf && pmul(w, l, T).inf;
                        }
                    }
                    if (found && !gc) ++mc_n_nontriv;
                }
                for (int k = 0; k < n; ++k) ref_enc(xs[k], tag < 0 ? r->left.chain.x[k].bytes : tag > 0 ? r->right.chain.x[k].bytes : r->bottom.chain.x[k].bytes);
                if (!tag) ref_enc(E2, r->bottom.E2.bytes);
                int acc = 0;
                for (int t = 0; t < 24; ++t) {
                    if (tag < 0) r->left.r2[3] = t; else if (tag > 0) r->right.r3[3] = t; else r->bottom.r2[3] = t;
                    int want = refp_verify(&prf);
                    mc_context("Verify A=%u+%ui place=%d tag=%d t=%d", A.a, A.b, place, tag, t);
                    rnd_reset(77 + t);
                    bool got = Verify(&prf); ++mc_n_exec; acc += got; mc_n_trans += rnd_n;
                    if (want != RV_DC && got != (want == RV_OK))
                        mc_violation("t=%d x=%u,%u curve A=%u+%u*i over p=%d as E%d of a proof (tag %d): Verify says %d, expected %d (curve %s)", t, xs[0].a, xs[0].b, A.a, A.b, P_, place, tag, got, want == RV_OK, good ? "admissible" : "not admissible");
                    if (got) ++mc_n_ref;
                }
                if (good && acc == 0) ++mc_n_trans;
            }
        }
    }
    return mc_finish();
}
