// Reference verifier for the reduced proof system, on the public struct proof of poik.h.
#ifndef REFPOIK_H
#define REFPOIK_H
#include "poik.h"
#include "ref.h"
static void refp_commit(const unsigned char *r, F2 j, unsigned char *h)
{
    unsigned char jb[2*MC_FP_BYTES]; ref_enc(j, jb);
    RK k; rk_init(&k, 136); rk_absorb(&k, "\x02", 1); rk_absorb(&k, r, HIDE_BYTES); rk_absorb(&k, jb, sizeof jb); rk_finish(&k); rk_squeeze(&k, h, HASH_BYTES);
}
typedef struct { unsigned char h2[HASH_BYTES], h3[HASH_BYTES]; } RefComm;
static void refp_challenge(F2 j0, F2 j1, const RefComm *c, int8_t *out)
{
    unsigned char jb[2*MC_FP_BYTES];
    RK k; rk_init(&k, 136); rk_absorb(&k, "\x01", 1);
    ref_enc(j0, jb); rk_absorb(&k, jb, sizeof jb);
    ref_enc(j1, jb); rk_absorb(&k, jb, sizeof jb);
    for (size_t i = 0; i < POIK_REPS; ++i) { rk_absorb(&k, c[i].h2, HASH_BYTES); rk_absorb(&k, c[i].h3, HASH_BYTES); }
    rk_finish(&k);
    // bytes 0..242 carry five trits, least significant first; the rest of a 136-byte block that is
    // not needed is irrelevant because the requested number is reached
    size_t done = 0;
    while (done < POIK_REPS) {
        unsigned char b; rk_squeeze(&k, &b, 1);
        if (b >= 243) continue;
        for (int t = 0; t < 5 && done < POIK_REPS; ++t, b /= 3) out[done++] = b % 3 == 2 ? -1 : b % 3;
    }
}
// RV_BAD / RV_OK / RV_DC for one response, with the commitments it opens
static int refp_resp(const struct proof *prf, size_t i, RefComm *c, bool *canon)
{
    const struct response *r = &prf->resp[i];
    F2 E0 = ref_dec(prf->E0.bytes, canon), E1 = ref_dec(prf->E1.bytes, canon), j;
    F2 x[POIK_HEIGHT > POIK_WIDTH ? POIK_HEIGHT : POIK_WIDTH]; int res;
    switch ((int) r->tag) {
    case -1:
        for (size_t k = 0; k < POIK_HEIGHT; ++k) x[k] = ref_dec(r->left.chain.x[k].bytes, canon);
        res = ref_path(E0, x, POIK_HEIGHT, 3, &j, NULL); if (!res) return res;
        refp_commit(r->left.r2, j, c->h2); memcpy(c->h3, r->left.h3, HASH_BYTES); return res;
    case 1:
        for (size_t k = 0; k < POIK_HEIGHT; ++k) x[k] = ref_dec(r->right.chain.x[k].bytes, canon);
        res = ref_path(E1, x, POIK_HEIGHT, 3, &j, NULL); if (!res) return res;
        memcpy(c->h2, r->right.h2, HASH_BYTES); refp_commit(r->right.r3, j, c->h3); return res;
    case 0: {
        F2 E2 = ref_dec(r->bottom.E2.bytes, canon);
        if (!ref_good(E2)) return RV_BAD;
        for (size_t k = 0; k < POIK_WIDTH; ++k) x[k] = ref_dec(r->bottom.chain.x[k].bytes, canon);
        res = ref_path(E2, x, POIK_WIDTH, 2, &j, NULL); if (!res) return res;
        refp_commit(r->bottom.r2, mont_j(E2), c->h2); refp_commit(r->bottom.r3, j, c->h3); return res; }
    default: return RV_BAD;
    }
}
static int refp_verify_ex(const struct proof *prf, int *structural)
{
    static RefComm c[POIK_REPS]; static int8_t ch[POIK_REPS];
    bool canon = true; int res = RV_OK;
    F2 E0 = ref_dec(prf->E0.bytes, &canon), E1 = ref_dec(prf->E1.bytes, &canon);
    if (structural) *structural = RV_BAD;
    if (!ref_good(E0) || !ref_good(E1)) return RV_BAD;
    for (size_t i = 0; i < POIK_REPS; ++i) {
        int r = refp_resp(prf, i, &c[i], &canon);
        if (r == RV_BAD) return RV_BAD;
        if (r == RV_DC) res = RV_DC;
    }
    if (!canon) res = RV_DC;
    if (structural) *structural = res;
    refp_challenge(mont_j(E0), mont_j(E1), c, ch);
    for (size_t i = 0; i < POIK_REPS; ++i) if (ch[i] != (int) prf->resp[i].tag) return RV_BAD;
    return res;
}
static int refp_verify(const struct proof *prf) { return refp_verify_ex(prf, NULL); }
#endif
