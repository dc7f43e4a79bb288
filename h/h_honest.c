// C01, C05, C18 (reduced field): the honest prover.
//   c01 sh ns nstart D : Generate, Prove, Verify for nstart start models; each of the first D pairs
//                        of field words drawn (and, at every byte request, the first byte) takes every value
//   c05 sh ns nstart nseed : every value of the last pair drawn; kernel counts must be uniform
//   c18 sh ns nseed : every model of every curve
#define _GNU_SOURCE
#include "refpoik.h"
#include "rnd.h"
extern unsigned mc_rep_mode;
static F2 starts[1 << 16]; static size_t nstarts;
static void find_starts(size_t lim)
{
    for (size_t i = 0; i < F2N && nstarts < lim; ++i) { F2 A = i2f((i * 104729u) % F2N); if (ref_good(A)) starts[nstarts++] = A; }
}
static F2 dec(const packed_fp2 *p, bool *c) { return ref_dec(p->bytes, c); }
static int check_secret(F2 A, const struct secret *s, const char *ctx)
{   // returns RV_* after reporting
    F2 E[POIK_WIDTH+1], x[POIK_WIDTH]; bool c = true; int where;
    for (int i = 0; i <= POIK_WIDTH; ++i) E[i] = dec(&s->E[i], &c);
    for (int i = 0; i < POIK_WIDTH; ++i) x[i] = dec(&s->P[i], &c);
    if (!c) { mc_violation("secret walk from A=%u+%ui holds a non-reduced coordinate (%s)", A.a, A.b, ctx); return RV_BAD; }
    if (!feq(E[0], A)) { mc_violation("secret walk does not start at the given A=%u+%ui (%s)", A.a, A.b, ctx); return RV_BAD; }
    int r = ref_chain(E, x, POIK_WIDTH, 2, &where);
    if (r == RV_BAD) mc_violation("secret walk from A=%u+%ui over p=%d: step %d is not a linked, full-order, non-backtracking step (%s)", A.a, A.b, P_, where, ctx);
    return r;
}
static F2 canon_of(F2 A) { return ref_canon(wmont(A), F0).B; }
static unsigned gen_calls;
static unsigned long cov_hash[1 << 16]; static unsigned long ncov;
static void run_c01(F2 A, const char *ctx)
{
    static struct secret sec; static struct proof prf;
    packed_fp2 e; ref_enc(A, e.bytes); memset(&prf, 0x5a, sizeof prf);
    mc_context("honest run A=%u+%ui %s", A.a, A.b, ctx);
    ++mc_n_exec;
    if (!Generate(&e, &sec)) { mc_violation("Generate rejects the admissible A=%u+%ui over p=%d (%s)", A.a, A.b, P_, ctx); return; }
    gen_calls = rnd_n;
    int r = check_secret(A, &sec, ctx); if (r == RV_BAD) return;
    Prove(&sec, &prf);
    unsigned calls = rnd_n; mc_n_trans += calls;
    int want = refp_verify(&prf);
    bool got = Verify(&prf);
    bool c = true;
    F2 E0 = dec(&prf.E0, &c), E1 = dec(&prf.E1, &c), E1s = dec(&sec.E[POIK_WIDTH], &c);
    if (!c || !feq(E0, canon_of(A)) || !feq(E1, canon_of(E1s)))
        mc_violation("proof names E0=%u+%ui E1=%u+%ui instead of the canonical models %u+%ui, %u+%ui (%s)", E0.a, E0.b, E1.a, E1.b, canon_of(A).a, canon_of(A).b, canon_of(E1s).a, canon_of(E1s).b, ctx);
    if (want == RV_BAD) mc_violation("honest proof from A=%u+%ui over p=%d is not valid: the reference verifier rejects it (%s)", A.a, A.b, P_, ctx);
    if (!got && want == RV_OK) mc_violation("honest proof from A=%u+%ui over p=%d is rejected by Verify (%s)", A.a, A.b, P_, ctx);
    if (want == RV_OK) { ++mc_n_ref; ++mc_n_nontriv; }
    uint64_t h = 0; for (size_t i = 0; i < sizeof sec; ++i) h = h * 1099511628211ull + ((unsigned char *) &sec)[i];
    h ^= h >> 29; cov_hash[h & 0xffff] = 1;
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; size_t sh = atoi(argv[2]), ns = atoi(argv[3]);
    unsigned long a4 = strtoul(argv[4], 0, 0), a5 = argc > 5 ? strtoul(argv[5], 0, 0) : 0; unsigned long unit = 0;
    mc_rep_mode = argc > 6 ? atoi(argv[6]) : 0;
    alarm(850);
    char ctx[200];
    if (!strcmp(mode, "c01")) {
        find_starts(a4);
        for (size_t s = 0; s < nstarts; ++s) {
            ++mc_n_state;
            // baseline
            rnd_reset(s); rnd_log_on = 1;
            sprintf(ctx, "seed %zu", s); run_c01(starts[s], ctx);
            unsigned total = rnd_n; unsigned lens[RND_LOG_MAX]; for (unsigned i = 0; i < total && i < RND_LOG_MAX; ++i) lens[i] = rnd_log[i].len;
            rnd_log_on = 0;
            for (unsigned k = 0; k < a5; ++k) for (size_t v = 0; v < F2N; ++v) {
                if (unit++ % ns != sh) continue;
                F2 x = i2f(v);
                rnd_reset(s); rnd_override_word(2*k, x.a); rnd_override_word(2*k+1, x.b);
                sprintf(ctx, "seed %zu, field words %u,%u = %u,%u", s, 2*k, 2*k+1, x.a, x.b);
                run_c01(starts[s], ctx);
            }
            // the same pair many times over, starting at each of the first positions
            if (s < 3) for (unsigned k = 0; k < (a5 < 30 ? a5 : 30); k += 1 + s) for (size_t v = 0; v < F2N; ++v) {
                if (unit++ % ns != sh) continue;
                F2 x = i2f(v);
                rnd_reset(s); for (unsigned z = 0; z < 40; ++z) { rnd_plan_word(2*(k+z), x.a); rnd_plan_word(2*(k+z)+1, x.b); }
                sprintf(ctx, "seed %zu, field words %u to %u = %u,%u alternating", s, 2*k, 2*k+79, x.a, x.b);
                run_c01(starts[s], ctx);
            }
            for (unsigned i = 0; i < total && i < RND_LOG_MAX; ++i) if (lens[i] != 8 && lens[i] != 16)
                for (unsigned b = 0; b < (lens[i] > 8 ? 4 : 256); ++b) {
                    if (unit++ % ns != sh) continue;
                    unsigned char v = b;
                    rnd_reset(s); rnd_override(i, &v, 1);
                    sprintf(ctx, "seed %zu, random call %u first byte %u", s, i, b);
                    run_c01(starts[s], ctx);
                }
            mc_sample("start A=%u+%ui: %u random calls in the baseline run", starts[s].a, starts[s].b, total);
        }
        for (int i = 0; i < 1 << 16; ++i) ncov += cov_hash[i];
        printf("S secrets %lu\n", ncov);
    } else if (!strcmp(mode, "c05")) {
        find_starts(a4);
        static unsigned *cnt; cnt = calloc(F2N, sizeof *cnt);
        for (size_t s = 0; s < nstarts; ++s) for (unsigned long seed = 0; seed < a5; ++seed) {
            if (unit++ % ns != sh) continue;
            F2 A = starts[s]; packed_fp2 e; ref_enc(A, e.bytes); struct secret sec;
            rnd_reset(seed); if (!Generate(&e, &sec)) { mc_violation("Generate rejects admissible A=%u+%ui", A.a, A.b); continue; }
            unsigned nw = rnd_w, prevw; (void) prevw;
            struct secret base = sec; ++mc_n_state;
            memset(cnt, 0, F2N * sizeof *cnt);
            unsigned long hits = 0; bool first = true; F2 Elast = F0; bool bad = false, dc = false;
            for (size_t v = 0; v < F2N && !bad; ++v) {
                F2 x = i2f(v);
                rnd_reset(seed); rnd_override_word(nw-2, x.a); rnd_override_word(nw-1, x.b);
                mc_context("Generate A=%u+%ui seed %lu last pair %u,%u", A.a, A.b, seed, x.a, x.b);
                if (!Generate(&e, &sec)) { mc_violation("Generate rejects admissible A=%u+%ui seed %lu last pair %u,%u", A.a, A.b, seed, x.a, x.b); bad = true; break; }
                ++mc_n_exec; mc_n_trans += rnd_n;
                sprintf(ctx, "seed %lu last pair %u,%u", seed, x.a, x.b);
                int r = check_secret(A, &sec, ctx); if (r == RV_BAD) { bad = true; break; } if (r == RV_DC) dc = true;
                if (rnd_w != nw) continue;           // this value was not the deciding one
                if (memcmp(base.P, sec.P, sizeof(packed_fp2) * (POIK_WIDTH-1)) || memcmp(base.E, sec.E, sizeof(packed_fp2) * POIK_WIDTH)) {
                    mc_violation("last draw of Generate influences an earlier step of the walk (A=%u+%ui, %s)", A.a, A.b, ctx); bad = true; break; }
                bool c = true; Elast = dec(&sec.E[POIK_WIDTH-1], &c); F2 px = dec(&sec.P[POIK_WIDTH-1], &c);
                ++cnt[ref_kernel_id(Elast, px, 2)]; ++hits; first = false;
            }
            if (bad) continue;
            if (first) { mc_violation("Generate never finishes on the draw it finished on (A=%u+%ui seed %lu)", A.a, A.b, seed); continue; }
            unsigned long support = 0, mn = -1ul, mx = 0;
            for (size_t v = 0; v < F2N; ++v) if (cnt[v]) { ++support; if (cnt[v] < mn) mn = cnt[v]; if (cnt[v] > mx) mx = cnt[v]; }
            unsigned long full = POIK_WIDTH == 1 ? 3ul << (MC_E2-1) : 1ul << MC_E2;
            (void) dc;
            if (support != full || mn != mx)
                mc_violation("kernel of step %d of the secret walk from A=%u+%ui over p=%d (seed %lu) is not uniform: %lu of %lu admissible kernels occur, between %lu and %lu times", POIK_WIDTH-1, A.a, A.b, P_, seed, support, full, mn, mx);
            else { ++mc_n_nontriv; mc_n_ref += hits; mc_sample("A=%u+%ui seed %lu: %lu kernels, each %lu times", A.a, A.b, seed, support, mn); }
        }
    } else if (!strcmp(mode, "c18")) {
        find_starts(1 << 16);
        for (size_t s = 0; s < nstarts; ++s) for (unsigned long seed = 0; seed < a4; ++seed) {
            if (unit++ % ns != sh) continue;
            F2 A = starts[s]; static struct secret sec; static struct proof prf, p2; packed_fp2 e; ref_enc(A, e.bytes);
            ++mc_n_state; ++mc_n_exec;
            mc_context("c18 A=%u+%ui seed %lu", A.a, A.b, seed);
            rnd_reset(seed); if (!Generate(&e, &sec)) { mc_violation("Generate rejects admissible A=%u+%ui", A.a, A.b); continue; }
            Prove(&sec, &prf); mc_n_trans += rnd_n;
            bool c = true; F2 E0 = dec(&prf.E0, &c), E1 = dec(&prf.E1, &c), E1s = dec(&sec.E[POIK_WIDTH], &c);
            if (!c || !feq(E0, canon_of(A))) mc_violation("start A=%u+%ui over p=%d is named %u+%ui, its least model is %u+%ui", A.a, A.b, P_, E0.a, E0.b, canon_of(A).a, canon_of(A).b);
            if (!c || !feq(E1, canon_of(E1s))) mc_violation("end curve %u+%ui over p=%d is named %u+%ui, its least model is %u+%ui", E1s.a, E1s.b, P_, E1.a, E1.b, canon_of(E1s).a, canon_of(E1s).b);
            if (!feq(canon_of(A), A)) ++mc_n_nontriv;
            for (size_t i = 0; i < POIK_REPS; ++i) if (prf.resp[i].tag == RESP_BOTTOM) {
                F2 E2 = dec(&prf.resp[i].bottom.E2, &c);
                if (!c || !feq(E2, canon_of(E2))) mc_violation("revealed middle curve %u+%ui is not the least model (%u+%ui)", E2.a, E2.b, canon_of(E2).a, canon_of(E2).b);
                ++mc_n_ref;
            }
            // naming the name changes nothing
            rnd_reset(seed + 1); if (Generate(&prf.E0, &sec)) { Prove(&sec, &p2); if (memcmp(&p2.E0, &prf.E0, sizeof p2.E0)) mc_violation("renaming the canonical model of A=%u+%ui changes it", A.a, A.b); }
            else mc_violation("canonical model of A=%u+%ui is rejected", A.a, A.b);
            // the verdict depends on the class of the curves only: replace E0/E1 by their other models where the opened path does not start there
            Model m[6]; int k;
            for (int which = 0; which < 2; ++which) {
                F2 C = which ? E1 : E0; k = ref_models(wmont(C), F0, m);
                for (int q = 0; q < k; ++q) {
                    rnd_reset(seed + 2); if (!Generate(&e, &sec)) break; Prove(&sec, &p2);
                    ref_enc(which ? canon_of(dec(&p2.E1, &c)) : m[q].B, p2.E0.bytes);
                    if (which) { F2 X = dec(&p2.E1, &c); Model mm[6]; int kk = ref_models(wmont(X), F0, mm); if (q < kk) ref_enc(mm[q].B, p2.E1.bytes); ref_enc(canon_of(A), p2.E0.bytes); }
                    int want = refp_verify(&p2); rnd_reset(5); bool got = Verify(&p2); ++mc_n_exec;
                    if (want != RV_DC && got != (want == RV_OK)) mc_violation("proof with E%d given as another model: Verify says %d, reference %d (A=%u+%ui seed %lu model %d)", which, got, want == RV_OK, A.a, A.b, seed, q);
                }
            }
            mc_sample("A=%u+%ui -> %u+%ui", A.a, A.b, E0.a, E0.b);
        }
    }
    return mc_finish();
}
