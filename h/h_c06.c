// C06 (reduced field): what a proof discloses.
//   fresh sh ns nseed : nonces are disjoint stretches of the random source; unopened ones stay out of the proof
//   gens sh ns nseed  : kernel generators of middle-path responses range uniformly over all generators
//   mask sh ns nseed  : the last masking step is uniform over the admissible kernels
#define _GNU_SOURCE
#define RND_LOG_MAX 65536
#include "refpoik.h"
#include "rnd.h"
static F2 starts[4096]; static size_t nstarts;
static F2 js[65536]; static size_t njs;
static struct secret sec; static struct proof prf;
static unsigned char *cat; static size_t ncat;          // all bytes delivered during Prove
static F2 dec(const packed_fp2 *p) { return ref_dec(p->bytes, NULL); }
static void flatten(unsigned from)
{
    free(cat); cat = malloc((size_t)(rnd_n - from) * 160 + 1); ncat = 0;
    for (unsigned i = from; i < rnd_n && i < RND_LOG_MAX; ++i) { memcpy(cat + ncat, rnd_log[i].data, rnd_log[i].len); ncat += rnd_log[i].len; }
}
typedef struct { size_t pos; size_t rep; int which; bool open; } Use;
static Use uses[2*POIK_REPS + 4]; static size_t nuse;
static bool find_bytes(const unsigned char *r, size_t *pos) { unsigned char *q = memmem(cat, ncat, r, HIDE_BYTES); if (!q) return false; *pos = q - cat; return true; }
static void fresh(unsigned long seed)
{
    F2 A = starts[seed % nstarts]; packed_fp2 e; ref_enc(A, e.bytes);
    rnd_reset(seed); rnd_log_on = 1;
    mc_context("fresh A=%u+%ui seed %lu", A.a, A.b, seed);
    if (!Generate(&e, &sec)) { mc_violation("Generate rejects A=%u+%ui", A.a, A.b); return; }
    unsigned from = rnd_n; Prove(&sec, &prf); flatten(from); rnd_log_on = 0;
    ++mc_n_exec; ++mc_n_state; mc_n_trans += rnd_n; nuse = 0;
    for (size_t i = 0; i < POIK_REPS; ++i) {
        const struct response *r = &prf.resp[i];
        for (int w = 2; w <= 3; ++w) {
            const unsigned char *rr = NULL, *h = NULL;
            if (r->tag == RESP_LEFT) { if (w == 2) rr = r->left.r2; else h = r->left.h3; }
            else if (r->tag == RESP_RIGHT) { if (w == 3) rr = r->right.r3; else h = r->right.h2; }
            else rr = w == 2 ? r->bottom.r2 : r->bottom.r3;
            size_t pos = 0; bool ok = false;
            if (rr) ok = find_bytes(rr, &pos);
            else for (size_t p = 0; p + HIDE_BYTES <= ncat && !ok; ++p) {
                for (size_t q = 0; q < njs && !ok; ++q) { unsigned char hh[HASH_BYTES]; refp_commit(cat + p, js[q], hh); if (!memcmp(hh, h, HASH_BYTES)) { ok = true; pos = p; } }
            }
            if (!ok) { mc_violation("repetition %zu of %d (tag %d): the %s nonce r%d is not %d fresh bytes of the random source (seed %lu)", i, POIK_REPS, (int) r->tag, rr ? "opened" : "unopened", w, HIDE_BYTES, seed); continue; }
            if (!rr) {
                ++mc_n_nontriv;
                for (size_t o = 0; o + 16 <= HIDE_BYTES; o += 4) if (memmem(&prf, sizeof prf, cat + pos + o, 16)) { mc_violation("repetition %zu (tag %d): bytes of the unopened nonce r%d appear in the proof (seed %lu)", i, (int) r->tag, w, seed); break; }
            }
            for (size_t u = 0; u < nuse; ++u) if (uses[u].pos < pos + HIDE_BYTES && pos < uses[u].pos + HIDE_BYTES)
                mc_violation("nonce r%d of repetition %zu shares bytes with nonce r%d of repetition %zu (seed %lu)", w, i, uses[u].which, uses[u].rep, seed);
            uses[nuse++] = (Use){ pos, i, w, rr != NULL };
        }
    }
    mc_sample("seed %lu: %zu nonces located in %zu random bytes", seed, nuse, ncat);
}
static void gens(unsigned long seed)
{
    F2 A = starts[seed % nstarts]; packed_fp2 e; ref_enc(A, e.bytes);
    mc_context("gens A=%u+%ui seed %lu", A.a, A.b, seed);
    rnd_reset(seed); if (!Generate(&e, &sec)) { mc_violation("Generate rejects A=%u+%ui", A.a, A.b); return; }
    rnd_log_on = 1; rnd_reset(seed); Prove(&sec, &prf); rnd_log_on = 0; unsigned n = rnd_n;
    static struct proof base; base = prf;
    static unsigned lens[RND_LOG_MAX]; for (unsigned i = 0; i < n; ++i) lens[i] = rnd_log[i].len;
    ++mc_n_state;
    static unsigned *cnt; if (!cnt) cnt = calloc(F2N, sizeof *cnt);
    for (size_t i = 0; i < POIK_REPS; ++i) if (base.resp[i].tag == RESP_BOTTOM) for (int k = 0; k < POIK_WIDTH; ++k) {
        // is there a random byte that moves exactly this coordinate over all generators, equally often?
        bool good = false; unsigned long best = 0; F2 cur = F0; unsigned long want = 1ul << (MC_E2 - 2);
        F2 xs[POIK_WIDTH]; for (int q = 0; q < POIK_WIDTH; ++q) xs[q] = dec(&base.resp[i].bottom.chain.x[q]);
        cur = dec(&base.resp[i].bottom.E2); for (int q = 0; q < k; ++q) cur = ref_step(cur, xs[q], 2)->B;
        size_t kid = ref_kernel_id(cur, xs[k], 2);
        for (unsigned cidx = 0; cidx < n && !good; ++cidx) {
            if (lens[cidx] == 8 || lens[cidx] == 16 || lens[cidx] >= HIDE_BYTES) continue;
            for (unsigned b = 0; b < lens[cidx] && !good; ++b) {
                memset(cnt, 0, F2N * sizeof *cnt); unsigned long supp = 0, mn = -1ul, mx = 0; bool moved = false, bad = false;
                for (int v = 0; v < 256 && !bad; ++v) {
                    unsigned char buf[160]; memcpy(buf, rnd_log[cidx].data, lens[cidx]); buf[b] = v;
                    rnd_reset(seed); rnd_override(cidx, buf, lens[cidx]);
                    Prove(&sec, &prf); ++mc_n_exec; mc_n_trans += rnd_n;
                    if (prf.resp[i].tag != RESP_BOTTOM) { bad = true; break; }
                    F2 y = dec(&prf.resp[i].bottom.chain.x[k]);
                    if (!feq(y, xs[k])) moved = true;
                    if (!ref_step(cur, y, 2)->ok || ref_kernel_id(cur, y, 2) != kid) { bad = true; break; }
                    ++cnt[f2i(y)];
                    if (v == 15 && !moved) break;       // this byte does not touch the coordinate
                }
                if (bad || !moved) continue;
                for (size_t v = 0; v < F2N; ++v) if (cnt[v]) { ++supp; if (cnt[v] < mn) mn = cnt[v]; if (cnt[v] > mx) mx = cnt[v]; }
                if (supp > best) best = supp;
                if (supp == want && mn == mx) good = true;
            }
        }
        if (!good) mc_violation("repetition %zu, middle-path generator %d (A=%u+%ui, p=%d, seed %lu): no random byte moves it uniformly over all %lu generators of its kernel (best: %lu of them)", i, k, A.a, A.b, P_, seed, want, best);
        else { ++mc_n_nontriv; ++mc_n_ref; mc_sample("seed %lu rep %zu generator %d: uniform over %lu generators", seed, i, k, want); }
    }
}
// masking path: one repetition; for every value of the deciding pair of words find a nonce that makes the
// challenge LEFT, look at the last kernel
static bool left_kernel(unsigned long seed, unsigned k, F2 x, bool ov, F2 *E, F2 *px, struct proof *out)
{
    for (int t = 0; t < 60; ++t) {
        rnd_reset(seed); if (ov) { rnd_override_word(2*k, x.a); rnd_override_word(2*k+1, x.b); }
        // nonces differ through a second stream: perturb every byte request
        mc_nonce_salt = t + 1;
        Prove(&sec, out); ++mc_n_exec; mc_n_trans += rnd_n;
        if (out->resp[0].tag != RESP_LEFT) continue;
        F2 cur = dec(&out->E0); for (int q = 0; q + 1 < POIK_HEIGHT; ++q) cur = ref_step(cur, dec(&out->resp[0].left.chain.x[q]), 3)->B;
        *E = cur; *px = dec(&out->resp[0].left.chain.x[POIK_HEIGHT-1]); return true;
    }
    return false;
}
static void mask(unsigned long seed)
{
    F2 A = starts[seed % nstarts]; packed_fp2 e; ref_enc(A, e.bytes);
    mc_context("mask A=%u+%ui seed %lu", A.a, A.b, seed);
    rnd_reset(seed); if (!Generate(&e, &sec)) { mc_violation("Generate rejects A=%u+%ui", A.a, A.b); return; }
    static struct proof base, q; F2 E, px, E2, p2;
    if (!left_kernel(seed, 0, F0, false, &E, &px, &base)) { mc_violation("challenge LEFT never occurs (seed %lu)", seed); return; }
    unsigned nw = rnd_w; ++mc_n_state;
    // the last pair of words that influences the last kernel but nothing before it
    int dk = -1;
    for (int k = (int) nw/2 - 1; k >= 0 && dk < 0; --k) for (int v = 0; v < 160; ++v) {
        F2 x = i2f((v * 7919u + 13) % F2N);
        if (!left_kernel(seed, k, x, true, &E2, &p2, &q)) continue;
        if (memcmp(q.resp[0].left.chain.x, base.resp[0].left.chain.x, sizeof(packed_fp2) * (POIK_HEIGHT-1))) continue;
        if (!feq(p2, px)) { dk = k; break; }
    }
    if (dk < 0) { mc_violation("no random draw influences the last masking step (A=%u+%ui, seed %lu)", A.a, A.b, seed); return; }
    static unsigned *cnt; if (!cnt) cnt = calloc(F2N, sizeof *cnt); memset(cnt, 0, F2N * sizeof *cnt);
    for (size_t v = 0; v < F2N; ++v) {
        if (!left_kernel(seed, dk, i2f(v), true, &E2, &p2, &q)) continue;
        if (!feq(E2, E) || !ref_step(E2, p2, 3)->ok) { mc_violation("masking path is not a path (A=%u+%ui seed %lu)", A.a, A.b, seed); return; }
        ++cnt[ref_kernel_id(E2, p2, 3)];
    }
    unsigned long tot = 4, supp = 0, mn = -1ul; for (int i = 1; i < MC_E3; ++i) tot *= 3;
    unsigned long full = POIK_HEIGHT == 1 ? tot : tot / 4 * 3, above = 0;
    for (size_t v = 0; v < F2N; ++v) if (cnt[v]) { ++supp; if (cnt[v] < mn) mn = cnt[v]; }
    for (size_t v = 0; v < F2N; ++v) if (cnt[v] > mn) ++above;     // the kernel that rejected draws fall through to
    if (supp != full || above > 1) mc_violation("last masking step from A=%u+%ui over p=%d (seed %lu): %lu of %lu admissible kernels, %lu of them more often than %lu times", A.a, A.b, P_, seed, supp, full, above, mn);
    else { ++mc_n_nontriv; mc_sample("A=%u+%ui seed %lu: masking kernel uniform over %lu kernels (%lu each)", A.a, A.b, seed, supp, mn); }
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; size_t sh = atoi(argv[2]), ns = atoi(argv[3]); unsigned long nseed = strtoul(argv[4], 0, 0);
    alarm(850);
    for (size_t i = 0; i < F2N && nstarts < 4096; ++i) { F2 A = i2f((i * 104729u) % F2N); if (ref_good(A)) { starts[nstarts++] = A; F2 j = mont_j(A); size_t k = 0; while (k < njs && !feq(js[k], j)) ++k; if (k == njs) js[njs++] = j; } }
    for (unsigned long s = 0; s < nseed; ++s) { if (s % ns != sh) continue; if (!strcmp(mode, "fresh")) fresh(s); else if (!strcmp(mode, "gens")) gens(s); else mask(s); }
    return mc_finish();
}
