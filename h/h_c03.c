// C03: the tags are the hash of everything.
//   size  sh ns nseed          : parameter sizes; honest proofs against the reference; single changes
//   bytes sh ns nseed          : one repetition, forged openings until every first digest byte occurred
//   trits sh ns nseed          : honest proofs of a few repetitions, many nonces
#define _GNU_SOURCE
#include "refpoik.h"
#include "rnd.h"
static F2 starts[4096]; static size_t nstarts; static struct secret sec; static struct proof prf, mut;
static size_t sh, ns; static unsigned long unit;
static F2 dec(const packed_fp2 *p) { return ref_dec(p->bytes, NULL); }
// cached reference data of the valid proof, so that one change costs one response
static RefComm base_c[POIK_REPS];
static int ref_after_change(size_t i)
{   // reference verdict of mut, which differs from prf in response i only (i == REPS: in E0/E1)
    static RefComm c[POIK_REPS]; static int8_t ch[POIK_REPS]; bool canon = true; int res = RV_OK;
    if (i == POIK_REPS) return refp_verify(&mut);
    memcpy(c, base_c, sizeof c);
    int r = refp_resp(&mut, i, &c[i], &canon);
    if (r == RV_BAD) return r;
    if (r == RV_DC || !canon) res = RV_DC;
    refp_challenge(mont_j(dec(&mut.E0)), mont_j(dec(&mut.E1)), c, ch);
    for (size_t k = 0; k < POIK_REPS; ++k) if (ch[k] != (int) mut.resp[k].tag) return RV_BAD;
    return res;
}
static void expect(size_t i, const char *what)
{
    mc_context("Verify after change: %s (response %zu)", what, i);
    int want = ref_after_change(i);
    rnd_reset(9); bool got = Verify(&mut); ++mc_n_exec; mc_n_trans += POIK_REPS;
    if (want != RV_DC && got != (want == RV_OK)) mc_violation("valid %d-bit-set proof, change of %s in response %zu of %d: Verify says %d, reference %d", POIK_BITS, what, i, POIK_REPS, got, want == RV_OK);
    if (want == RV_BAD) ++mc_n_nontriv;
}
static void changes(void)
{
    char w[100];
    for (size_t i = 0; i < POIK_REPS; ++i) {
        const struct response *r = &prf.resp[i]; bool dense = i % 73 == 0 || i == POIK_REPS-1;
        // tags
        for (int t = -1; t <= 1; ++t) { if (t == (int) r->tag || unit++ % ns != sh) continue; mut = prf; mut.resp[i].tag = t; sprintf(w, "tag %d -> %d", (int) r->tag, t); expect(i, w); }
        // every byte region of the opening: both 'byte strings'
        size_t la, lb; la = r->tag == RESP_RIGHT ? HASH_BYTES : HIDE_BYTES; lb = r->tag == RESP_LEFT ? HASH_BYTES : HIDE_BYTES;
        size_t off = (const unsigned char *) r->left.r2 - (const unsigned char *) r;
        for (size_t o = 0; o < la + lb; ++o) {
            if (!dense && o != 0 && o != la-1 && o != la && o != la+lb-1 && o != (i * 7) % (la+lb)) continue;
            if (unit++ % ns != sh) continue;
            mut = prf; ((unsigned char *) &mut.resp[i])[off + o] ^= dense ? 1 << (o % 8) : 0x80 >> (i % 8);
            sprintf(w, "byte %zu of the %s string (tag %d)", o < la ? o : o - la, o < la ? "first" : "second", (int) r->tag); expect(i, w);
        }
        // kernels: the next kernel generator in field order that spans another kernel
        int l = r->tag ? 3 : 2, n = r->tag ? POIK_HEIGHT : POIK_WIDTH; F2 cur = r->tag == RESP_LEFT ? dec(&prf.E0) : r->tag == RESP_RIGHT ? dec(&prf.E1) : dec(&r->bottom.E2);
        for (int k = 0; k < n; ++k) {
            packed_fp2 *s; mut = prf; struct response *m = &mut.resp[i];
            s = r->tag == RESP_LEFT ? &m->left.chain.x[k] : r->tag == RESP_RIGHT ? &m->right.chain.x[k] : &m->bottom.chain.x[k];
            F2 x = dec(s); size_t id = ref_kernel_id(cur, x, l); int nch = 0;
            F2 nxt = ref_step(cur, x, l)->B;
            if (unit++ % ns == sh)
                for (size_t q = f2i(x) + 1; q != f2i(x) && nch < (dense ? 6 : 1); q = (q + 1) % F2N) {
                    if (!ref_step(cur, i2f(q), l)->ok || ref_kernel_id(cur, i2f(q), l) == id) continue;
                    ++nch; ref_enc(i2f(q), s->bytes); sprintf(w, "kernel %d (tag %d)", k, (int) r->tag); expect(i, w);
                }
            cur = nxt;
        }
        if (r->tag == RESP_BOTTOM && unit++ % ns == sh) {
            F2 E2 = dec(&r->bottom.E2);
            for (size_t q = 0, c = 0; q < nstarts && c < 3; ++q) { if (feq(mont_j(starts[q]), mont_j(E2))) continue; ++c; mut = prf; ref_enc(starts[q], mut.resp[i].bottom.E2.bytes); expect(i, "middle curve"); }
        }
        // swap with the next repetition
        if (i + 1 < POIK_REPS && unit++ % ns == sh && memcmp(&prf.resp[i], &prf.resp[i+1], sizeof prf.resp[i])) {
            mut = prf; struct response t = mut.resp[i]; mut.resp[i] = mut.resp[i+1]; mut.resp[i+1] = t;
            int want = refp_verify(&mut); rnd_reset(9); bool got = Verify(&mut); ++mc_n_exec;
            if (want != RV_DC && got != (want == RV_OK)) mc_violation("swapping responses %zu and %zu: Verify says %d, reference %d", i, i+1, got, want == RV_OK);
        }
    }
    for (int which = 0; which < 2; ++which) {
        F2 C = dec(which ? &prf.E1 : &prf.E0);
        for (size_t q = 0; q < nstarts; ++q) {
            if (feq(mont_j(starts[q]), mont_j(C)) || unit++ % ns != sh) continue;
            mut = prf; ref_enc(starts[q], which ? mut.E1.bytes : mut.E0.bytes); sprintf(w, "E%d", which); expect(POIK_REPS, w);
        }
    }
    if (unit++ % ns == sh) { mut = prf; packed_fp2 t = mut.E0; mut.E0 = mut.E1; mut.E1 = t; expect(POIK_REPS, "E0<->E1"); }
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; sh = atoi(argv[2]); ns = atoi(argv[3]); unsigned long nseed = strtoul(argv[4], 0, 0);
    alarm(850);
    for (size_t i = 0; i < F2N && nstarts < 4096; ++i) { F2 A = i2f((i * 104729u) % F2N); if (ref_good(A)) starts[nstarts++] = A; }
    if (!strcmp(mode, "size")) {
        static const int tab[4][4] = { {434,219,32,64}, {503,219,32,64}, {610,329,48,96}, {751,438,64,128} };
        for (int k = 0; k < 4; ++k) if (tab[k][0] == POIK_BITS)
            if (HASH_BYTES < tab[k][2] || HIDE_BYTES < tab[k][3]
#ifndef POIK_MODEL_REPS
                || POIK_REPS < tab[k][1]
#endif
                ) mc_violation("parameter set %d: %d repetitions, %d-byte commitments, %d-byte nonces; required %d, %d, %d", POIK_BITS, POIK_REPS, HASH_BYTES, HIDE_BYTES, tab[k][1], tab[k][2], tab[k][3]);
        for (unsigned long seed = 0; seed < nseed; ++seed) {
            F2 A = starts[seed % nstarts]; packed_fp2 e; ref_enc(A, e.bytes);
            mc_context("honest proof A=%u+%ui seed %lu", A.a, A.b, seed);
            int want = RV_BAD;
            for (int t = 0; t < 50 && want != RV_OK; ++t) {     // find a run without ambiguous curves on its paths
                rnd_reset(seed * 100 + t); if (!Generate(&e, &sec)) { mc_violation("Generate rejects A=%u+%ui", A.a, A.b); return mc_finish(); }
                Prove(&sec, &prf); want = refp_verify(&prf); ++mc_n_exec;
                if (want == RV_BAD) { mc_violation("honest %d-bit-set proof (%d repetitions): tags or openings do not match the reference challenge (A=%u+%ui seed %lu)", POIK_BITS, POIK_REPS, A.a, A.b, seed); return mc_finish(); }
            }
            rnd_reset(3); if (!Verify(&prf)) { if (want == RV_OK) mc_violation("honest proof is rejected (A=%u+%ui seed %lu)", A.a, A.b, seed); continue; }
            bool canon; for (size_t i = 0; i < POIK_REPS; ++i) refp_resp(&prf, i, &base_c[i], &canon);
            ++mc_n_state; ++mc_n_ref;
            changes();
            mc_sample("%d-bit set, %d repetitions: honest proof matches, %lu changes rejected", POIK_BITS, POIK_REPS, mc_n_nontriv);
        }
    } else if (!strcmp(mode, "bytes")) {
        static bool seen[3][256];
        for (int tag = -1; tag <= 1; ++tag) {
            memset(&prf, 0, sizeof prf); struct response *r = &prf.resp[0]; r->tag = tag;
            F2 A = f2(6, 0); ref_enc(A, prf.E0.bytes); ref_enc(A, prf.E1.bytes); ref_enc(A, r->bottom.E2.bytes);
            if (tag) memset(&prf.resp[0].left, 0, sizeof prf.resp[0].left);
            F2 xs[8]; int l = tag ? 3 : 2, n = tag ? POIK_HEIGHT : POIK_WIDTH; F2 cur = A;
            for (int k = 0; k < n; ++k) for (size_t q = 0; q < F2N; ++q) { xs[k] = i2f(q); if (ref_step(cur, xs[k], l)->ok && ref_path(A, xs, k+1, l, NULL, NULL) == RV_OK) { cur = ref_step(cur, xs[k], l)->B; break; } }
            for (int k = 0; k < n; ++k) ref_enc(xs[k], tag < 0 ? r->left.chain.x[k].bytes : tag > 0 ? r->right.chain.x[k].bytes : r->bottom.chain.x[k].bytes);
            for (unsigned long t = 0; t < nseed; ++t) {
                if (unit++ % ns != sh) continue;
                unsigned char *rr = tag < 0 ? r->left.r2 : tag > 0 ? r->right.r3 : r->bottom.r2;
                rr[0] = t; rr[1] = t >> 8; rr[HIDE_BYTES-1] = t >> 4;
                unsigned char *h = tag < 0 ? r->left.h3 : tag > 0 ? r->right.h2 : r->bottom.r3; h[HASH_BYTES-1] = t;
                int want = refp_verify(&prf); mc_context("bytes tag %d t %lu", tag, t);
                // first digest byte, for the record
                { RefComm c; bool cn; refp_resp(&prf, 0, &c, &cn); RK k; unsigned char jb[2*MC_FP_BYTES], b; ref_enc(mont_j(A), jb); rk_init(&k, 136); rk_absorb(&k, "\x01", 1); rk_absorb(&k, jb, sizeof jb); rk_absorb(&k, jb, sizeof jb); rk_absorb(&k, &c, sizeof c); rk_finish(&k); rk_squeeze(&k, &b, 1); seen[tag+1][b] = true; }
                rnd_reset(t); bool got = Verify(&prf); ++mc_n_exec; ++mc_n_trans;
                if (want != RV_DC && got != (want == RV_OK)) mc_violation("forged opening tag %d, nonce variant %lu: Verify says %d, reference challenge says %d", tag, t, got, want == RV_OK);
                mc_n_ref += got;
            }
        }
        for (int t = 0; t < 3; ++t) for (int b = 0; b < 256; ++b) mc_n_state += seen[t][b];
        mc_n_nontriv = mc_n_ref;
    } else {
        for (unsigned long seed = 0; seed < nseed; ++seed) {
            if (unit++ % ns != sh) continue;
            F2 A = starts[seed % nstarts]; packed_fp2 e; ref_enc(A, e.bytes);
            mc_context("trits A=%u+%ui seed %lu", A.a, A.b, seed);
            rnd_reset(seed); if (!Generate(&e, &sec)) { mc_violation("Generate rejects A=%u+%ui", A.a, A.b); continue; }
            Prove(&sec, &prf); ++mc_n_exec; ++mc_n_state; mc_n_trans += POIK_REPS;
            int want = refp_verify(&prf);
            if (want == RV_BAD) mc_violation("honest proof with %d repetitions (A=%u+%ui seed %lu): tags are not the reference challenge", POIK_REPS, A.a, A.b, seed);
            if (want == RV_OK) { ++mc_n_ref; ++mc_n_nontriv; rnd_reset(1); if (!Verify(&prf)) mc_violation("valid proof rejected (A=%u+%ui seed %lu)", A.a, A.b, seed); }
        }
    }
    return mc_finish();
}
