// C12, C13, C14, C15, C08(part): key exchange and KEM over a reduced field.
//   c12 sh ns   : every pair of secret keys
//   c13 sh ns nmsg: every Bob key x messages
//   c14 sh ns nmsg: tampered ciphertexts
//   c15 sh ns mode: public-key triples
#define _GNU_SOURCE
#include "tiny_api.h"
#include "ref.h"
#include "rnd.h"
extern unsigned mc_rep_mode;
int EphemeralSecretAgreement_B_extended(const unsigned char*, const unsigned char*, unsigned char*, unsigned int);
#define KA (1ul << MC_E2)
static const unsigned char mask_a = MC_MASK_ALICE, mask_b = MC_MASK_BOB;
#define NPK (6*MC_FP_BYTES)
#define F2B (2*MC_FP_BYTES)
static unsigned long KB(void) { return (unsigned long)(mask_b + 1) << (8 * (MC_SKB_BYTES - 1)); }
static const F2 PAx[2] = MC_PA, QAx[2] = MC_QA, PBx[2] = MC_PB, QBx[2] = MC_QB;
static Pt mk(const F2 *a) { Pt p = { a[0], a[1], false }; return p; }
static W w6(void) { return wmont(f2(6, 0)); }
static Pt pneg(Pt P) { P.y = fneg_(P.y); return P; }
static void enc_key(unsigned long k, unsigned char *o, int n) { for (int i = 0; i < n; ++i) o[i] = k >> 8*i; }
// image of a full point under Velu steps with kernel K of order l^e; x only needed
typedef struct { W w; F2 x[4]; int nx; } Img;
static Img quotient(W w, Pt K, int l, int e, const F2 *xs, int nx)
{
    Img r; r.nx = nx; memcpy(r.x, xs, nx * sizeof *xs); F2 cx = K.x;
    for (int i = e - 1; i >= 0; --i) {
        Pt C = { cx, fsqrt_(wrhs(w, cx)), false }; unsigned long m = 1; for (int k = 0; k < i; ++k) m *= l;
        Pt G = pmul(w, m, C); Velu v = velu(w, G.x, l);
        if (i) cx = velu_x(&v, cx);
        for (int k = 0; k < nx; ++k) r.x[k] = velu_x(&v, r.x[k]);
        w = v.to;
    }
    r.w = w; return r;
}
static F2 root_of(W w) { for (size_t i = 0; i < F2N; ++i) if (fz(wrhs(w, i2f(i)))) return i2f(i); exit(3); }
static Pt kerA(unsigned long k) { return padd(w6(), mk(PAx), pmul(w6(), k, mk(QAx))); }
static Pt kerB(unsigned long k) { return padd(w6(), mk(PBx), pmul(w6(), k, mk(QBx))); }
static bool pk_ok(const unsigned char *pk, Img im)
{   // some Montgomery model of the codomain maps the images to the three coordinates
    Model m[6]; int n = ref_models(im.w, root_of(im.w), m); bool c = true;
    F2 t[3]; for (int i = 0; i < 3; ++i) t[i] = ref_dec(pk + i*F2B, &c);
    if (!c) return false;
    for (int q = 0; q < n; ++q) { bool ok = true; for (int i = 0; i < 3; ++i) ok &= feq(t[i], fmul(fsub(im.x[i], m[q].r), finv(m[q].u))); if (ok) return true; }
    return false;
}
static Img imgA(unsigned long k) { F2 xs[3] = { PBx[0], QBx[0], padd(w6(), mk(PBx), pneg(mk(QBx))).x }; return quotient(w6(), kerA(k), 2, MC_E2, xs, 3); }
static Img imgB(unsigned long k) { F2 xs[3] = { PAx[0], QAx[0], padd(w6(), mk(PAx), pneg(mk(QAx))).x }; return quotient(w6(), kerB(k), 3, MC_E3, xs, 3); }
static F2 common_j(unsigned long a, unsigned long b)
{
    Pt KB_ = kerB(b); F2 xs[1] = { KB_.x }; Img im = quotient(w6(), kerA(a), 2, MC_E2, xs, 1);
    Pt K = { im.x[0], fsqrt_(wrhs(im.w, im.x[0])), false };
    Img im2 = quotient(im.w, K, 3, MC_E3, xs, 0); return wj(im2.w);
}
static F2 jt(unsigned long a, unsigned long b) { static F2 *t; static bool *h; if (!t) { t = calloc(KA * KB(), sizeof *t); h = calloc(KA * KB(), 1); } size_t i = a * KB() + b; if (!h[i]) { t[i] = common_j(a, b); h[i] = true; } return t[i]; }
static void shake_ref(unsigned char *o, size_t n, const void *a, size_t la, const void *b, size_t lb) { RK k; rk_init(&k, 136); rk_absorb(&k, a, la); rk_absorb(&k, b, lb); rk_finish(&k); rk_squeeze(&k, o, n); }
static unsigned char pkA_tab[1 << 12][NPK];
static unsigned long Gsk(const unsigned char *m, const unsigned char *pk) { unsigned char e[MC_SKA_BYTES]; shake_ref(e, MC_SKA_BYTES, m, 16, pk, NPK); e[MC_SKA_BYTES-1] &= mask_a; unsigned long v = 0; for (int i = 0; i < MC_SKA_BYTES; ++i) v |= (unsigned long) e[i] << 8*i; return v; }
// decapsulation according to the specification
static void ref_dec_kem(const unsigned char *ct, const unsigned char *s, unsigned long skb, const unsigned char *pk, unsigned char *ss)
{
    unsigned char m[16], h[16], jb[F2B]; bool ok = false;
    for (unsigned long a = 0; a < KA && !ok; ++a) if (!memcmp(ct, pkA_tab[a], NPK)) {
        ref_enc(jt(a, skb), jb); shake_ref(h, 16, jb, F2B, "", 0);
        for (int i = 0; i < 16; ++i) m[i] = ct[NPK+i] ^ h[i];
        unsigned long a2 = Gsk(m, pk);
        ok = !memcmp(pkA_tab[a2], ct, NPK);
        break;
    }
    shake_ref(ss, CRYPTO_BYTES, ok ? m : s, 16, ct, CRYPTO_CIPHERTEXTBYTES);
    if (ok) ++mc_n_ref;
}
static void msg(int i, unsigned char *m) { for (int k = 0; k < 16; ++k) m[k] = i == 0 ? 0 : i == 1 ? 255 : mc_mix(i * 16 + k) >> 17; }
static void check_dec(unsigned char *ct, const unsigned char *sk, unsigned long b, const unsigned char *pk, const char *what)
{
    unsigned char want[CRYPTO_BYTES], got[CRYPTO_BYTES + 8]; memset(got, 0xee, sizeof got);
    ref_dec_kem(ct, sk, b, pk, want);
    mc_context("decapsulation, Bob key %lu, %s", b, what);
    int rc = crypto_kem_dec_TINY(got, ct, sk); ++mc_n_exec; ++mc_n_trans;
    if (rc) mc_violation("decapsulation returns %d (Bob key %lu, %s)", rc, b, what);
    if (memcmp(want, got, CRYPTO_BYTES)) { char x[2*CRYPTO_CIPHERTEXTBYTES+1]; mc_hex(x, ct, CRYPTO_CIPHERTEXTBYTES); mc_violation("decapsulated key differs from the specified one (p=%d, Bob key %lu, %s, ct=%s)", P_, b, what, x); }
    for (int i = 0; i < 8; ++i) if (got[CRYPTO_BYTES+i] != 0xee) { mc_violation("decapsulation writes beyond the shared secret"); break; }
}
// x-only order data of x on A (curve or twist): order l^k exactly?
static int xorder3(F2 A, F2 x, F2 *top)
{   // returns v with 3^v x = O minimal (v <= MC_E3+1), or -1; *top = x-coordinate of 3^(e-1) x when finite
    W w = wmont(A); F2 r = wrhs(w, x), d = F1;
    if (!fissq(r)) { d = f2(0,0); for (size_t i = 1; i < F2N; ++i) if (!fissq(i2f(i))) { d = i2f(i); break; } w.a2 = fmul(w.a2, d); w.a4 = fmul(w.a4, fsq(d)); x = fmul(x, d); r = wrhs(w, x); }
    Pt P = { x, fsqrt_(r), false }; int v = 0;
    for (; v <= MC_E3 && !P.inf; ++v) { if (v == MC_E3 - 1) *top = fmul(P.x, finv(d)); P = pmul(w, 3, P); }
    return P.inf ? v : -1;
}
static void c15_one(F2 a, F2 b, F2 c)
{
    if (fz(a) || fz(b) || fz(c)) return;
    // A = (1 - ab - ac - bc)^2 / (4abc) - a - b - c
    F2 t = fsub(F1, fadd(fadd(fmul(a,b), fmul(a,c)), fmul(b,c)));
    F2 A = fsub(fmul(fsq(t), finv(fmk(fmul(fmul(a,b),c), 4))), fadd(fadd(a,b),c));
    F2 ta = F0, tb = F0; bool sing = feq(A, f2(2,0)) || feq(A, f2(-2,0));
    bool good;
    if (sing && MC_E3 == 1) return;      // the node itself passes when no tripling precedes the first comparison; every real parameter set triples at least once
    if (sing) good = false;
    else { int va = xorder3(A, a, &ta), vb = va == MC_E3 ? xorder3(A, b, &tb) : -1; good = va == MC_E3 && vb == MC_E3 && !feq(ta, tb); }
    unsigned char pk[NPK], sk[MC_SKB_BYTES] = {1}, ss[F2B];
    ref_enc(a, pk); ref_enc(b, pk + F2B); ref_enc(c, pk + 2*F2B);
    int rc = EphemeralSecretAgreement_B_extended(sk, pk, ss, 1); ++mc_n_exec; ++mc_n_trans;
    if (rc != !good) mc_violation("public key x=(%u+%ui, %u+%ui, %u+%ui), A=%u+%ui over p=%d: validation returns %d, the points are %s", a.a, a.b, b.a, b.b, c.a, c.b, A.a, A.b, P_, rc, good ? "a basis of the 3-power torsion" : "degenerate");
    mc_n_nontriv += good;
}
int main(int argc, char **argv)
{
    mc_start(); ref_init();
    const char *mode = argv[1]; size_t sh = atoi(argv[2]), ns = atoi(argv[3]); unsigned long a4 = argc > 4 ? strtoul(argv[4], 0, 0) : 0; mc_rep_mode = argc > 5 ? atoi(argv[5]) : 0;
    unsigned long unit = 0; alarm(850);
    unsigned char pa[NPK+8], pb[NPK+8], sa[F2B], sb[F2B], ka[MC_SKA_BYTES], kb[MC_SKB_BYTES];
    if (!strcmp(mode, "c12")) {
        for (unsigned long a = 0; a < KA; ++a) {
            enc_key(a, ka, MC_SKA_BYTES); memset(pa, 0xee, sizeof pa); mc_context("A key %lu", a);
            int rc = EphemeralKeyGeneration_A_TINY(ka, pa); ++mc_n_exec; ++mc_n_state;
            if (a % ns == sh && (rc || !pk_ok(pa, imgA(a)))) mc_violation("p=%d: public key of A's secret %lu is not the image of B's basis under the isogeny with kernel P+[%lu]Q", P_, a, a);
            for (int i = 0; i < 8; ++i) if (pa[NPK+i] != 0xee) { mc_violation("A's key generation writes beyond the public key"); break; }
            for (unsigned long b = 0; b < KB(); ++b) {
                if (unit++ % ns != sh) continue;
                enc_key(b, kb, MC_SKB_BYTES); mc_context("A key %lu B key %lu", a, b); memset(pb, 0xee, sizeof pb);
                rc = EphemeralKeyGeneration_B_TINY(kb, pb);
                if (a == b % KA && (rc || !pk_ok(pb, imgB(b)))) mc_violation("p=%d: public key of B's secret %lu is not the image of A's basis under the isogeny with kernel P+[%lu]Q", P_, b, b);
                for (int i = 0; i < 8; ++i) if (pb[NPK+i] != 0xee) { mc_violation("B's key generation writes beyond the public key"); break; }
                int ra = EphemeralSecretAgreement_A_TINY(ka, pb, sa), rb = EphemeralSecretAgreement_B_TINY(kb, pa, sb); mc_n_exec += 3; mc_n_trans += 3;
                unsigned char w[F2B]; ref_enc(common_j(a, b), w);
                if (ra || rb || memcmp(sa, sb, F2B)) mc_violation("p=%d: A secret %lu and B secret %lu compute different shared secrets", P_, a, b);
                if (memcmp(sa, w, F2B) || memcmp(sb, w, F2B)) mc_violation("p=%d: shared secret of (%lu,%lu) is not the invariant of the common codomain", P_, a, b);
                ++mc_n_ref; ++mc_n_nontriv;
            }
        }
        mc_sample("p=%d: %lu x %lu secret keys", P_, KA, KB());
    } else if (!strcmp(mode, "c13") || !strcmp(mode, "c14")) {
        bool tamper = mode[2] == '4';
        for (unsigned long a = 0; a < KA; ++a) { enc_key(a, ka, MC_SKA_BYTES); EphemeralKeyGeneration_A_TINY(ka, pkA_tab[a]); if (!pk_ok(pkA_tab[a], imgA(a))) { mc_violation("public key of A's secret %lu is wrong", a); return mc_finish(); } }
        for (unsigned long b = 0; b < KB(); ++b) {
            unsigned char sk[CRYPTO_SECRETKEYBYTES + 8], pk[CRYPTO_PUBLICKEYBYTES + 8], ct[CRYPTO_CIPHERTEXTBYTES + 8], ss[CRYPTO_BYTES + 8];
            // key pair through the API, with the key bytes forced to b
            rnd_reset(b + 1); rnd_log_on = 1; memset(sk, 0xee, sizeof sk); memset(pk, 0xee, sizeof pk);
            enc_key(b, kb, MC_SKB_BYTES); for (unsigned q = 0; q < 4; ++q) { }
            rnd_override(1, kb, MC_SKB_BYTES);
            mc_context("key pair %lu", b);
            int rc = crypto_kem_keypair_TINY(pk, sk); ++mc_n_exec; ++mc_n_state;
            rnd_log_on = 0;
            unsigned long bb = 0; for (int i = 0; i < MC_SKB_BYTES; ++i) bb |= (unsigned long) sk[16+i] << 8*i;
            if (b % ns == sh && !tamper) {
                if (rc) mc_violation("key generation fails");
                if (bb >= KB()) mc_violation("secret scalar %lu out of range", bb);
                if (memcmp(sk + 16 + MC_SKB_BYTES, pk, NPK)) mc_violation("secret key does not embed its public key (Bob key %lu)", b);
                if (!pk_ok(pk, imgB(bb))) mc_violation("public key of Bob's secret %lu is wrong", bb);
                for (int i = 0; i < 8; ++i) if (sk[CRYPTO_SECRETKEYBYTES+i] != 0xee || pk[CRYPTO_PUBLICKEYBYTES+i] != 0xee) { mc_violation("key generation writes beyond its outputs"); break; }
            }
            for (unsigned long mi = 0; mi < a4; ++mi) {
                if (unit++ % ns != sh) continue;
                unsigned char m[16]; msg(mi, m); memset(ct, 0xee, sizeof ct); memset(ss, 0xee, sizeof ss);
                rnd_reset(mi); rnd_override(0, m, 16); mc_context("encapsulation Bob key %lu message %lu", bb, mi);
                rc = crypto_kem_enc_TINY(ct, ss, pk); ++mc_n_exec; ++mc_n_trans;
                // specified ciphertext and key
                unsigned long a = Gsk(m, pk); unsigned char wct[CRYPTO_CIPHERTEXTBYTES], h[16], jb[F2B], wss[CRYPTO_BYTES];
                memcpy(wct, pkA_tab[a], NPK); ref_enc(jt(a, bb), jb); shake_ref(h, 16, jb, F2B, "", 0); for (int i = 0; i < 16; ++i) wct[NPK+i] = m[i] ^ h[i];
                shake_ref(wss, CRYPTO_BYTES, m, 16, wct, CRYPTO_CIPHERTEXTBYTES);
                if (rc || memcmp(ct, wct, CRYPTO_CIPHERTEXTBYTES) || memcmp(ss, wss, CRYPTO_BYTES)) { mc_violation("p=%d: encapsulation of message %lu to Bob key %lu differs from the specification", P_, mi, bb); continue; }
                for (int i = 0; i < 8; ++i) if (ct[CRYPTO_CIPHERTEXTBYTES+i] != 0xee || ss[CRYPTO_BYTES+i] != 0xee) { mc_violation("encapsulation writes beyond its outputs"); break; }
                if (!tamper) {
                    check_dec(ct, sk, bb, pk, "honest ciphertext"); ++mc_n_nontriv;
                    unsigned char s2[CRYPTO_BYTES]; crypto_kem_dec_TINY(s2, ct, sk); ++mc_n_exec;
                    if (memcmp(s2, ss, CRYPTO_BYTES)) mc_violation("p=%d: decapsulation does not return the encapsulated key (Bob key %lu, message %lu)", P_, bb, mi);
                    continue;
                }
                unsigned char t[CRYPTO_CIPHERTEXTBYTES]; char w[100];
                for (size_t o = 0; o < CRYPTO_CIPHERTEXTBYTES; ++o) for (int v = 1; v < 256; ++v) {
                    memcpy(t, ct, sizeof t); t[o] ^= v;
                    sprintf(w, "message %lu, byte %zu xor %d", mi, o, v); check_dec(t, sk, bb, pk, w); ++mc_n_nontriv;
                }
                // other encodings of the same residues: decrypt to the same message, but are not the honest ciphertext
                for (int o = 0; o < 6; ++o) { unsigned long x = 0; for (int k = 0; k < MC_FP_BYTES; ++k) x |= (unsigned long) ct[o*MC_FP_BYTES+k] << 8*k;
                    for (unsigned long y = x + MC_P; y < 1ul << 8*MC_FP_BYTES; y += MC_P) { memcpy(t, ct, sizeof t); for (int k = 0; k < MC_FP_BYTES; ++k) t[o*MC_FP_BYTES+k] = y >> 8*k; sprintf(w, "message %lu, component %d encoded as %lu instead of %lu", mi, o, y, x); check_dec(t, sk, bb, pk, w); ++mc_n_nontriv; } }
                for (unsigned long a2 = 0; a2 < KA; ++a2) { memcpy(t, ct, sizeof t); memcpy(t, pkA_tab[a2], NPK); sprintf(w, "message %lu, first part replaced by the public key of %lu", mi, a2); check_dec(t, sk, bb, pk, w); }
                for (int k = 0; k < 64; ++k) { memcpy(t, ct, sizeof t); memset(t + NPK, k, 16); sprintf(w, "message %lu, second part all %d", mi, k); check_dec(t, sk, bb, pk, w); }
                for (int k = 0; k < 3; ++k) { memcpy(t, ct, sizeof t); memset(t + k * F2B, 0, F2B); sprintf(w, "message %lu, coordinate %d zero", mi, k); check_dec(t, sk, bb, pk, w); }
                for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) if (k != l) { memcpy(t, ct, sizeof t); memcpy(t + k * F2B, ct + l * F2B, F2B); sprintf(w, "message %lu, coordinate %d := %d", mi, k, l); check_dec(t, sk, bb, pk, w); }
            }
        }
        mc_sample("p=%d: %lu Bob keys, %lu messages", P_, KB(), a4);
    } else {
        if (a4 == 0) {          // every triple
            for (size_t i = 0; i < F2N; ++i) { if (i % ns != sh) continue; ++mc_n_state; for (size_t k = 0; k < F2N; ++k) for (size_t l = 0; l < F2N; ++l) c15_one(i2f(i), i2f(k), i2f(l)); }
        } else {                // every first coordinate x representatives of every class of second x both consistent third, for a4 curves
            size_t done = 0;
            for (size_t s = 0; s < F2N && done < a4; ++s) {
                bool sing = s < 2; F2 A = sing ? f2(s ? 2 : -2, 0) : i2f((s * 104729u) % F2N); bool g = !sing && ref_good(A); if (!sing && !g && s % 97) continue; if (!sing && (feq(A, f2(2,0)) || feq(A, f2(-2,0)))) continue;
                if (!sing) ++done; ++mc_n_state;
                // second coordinates: up to 8 per (order, curve/twist) class
                F2 sel[512]; int nsel = 0, seen[32] = {0};
                if (sing) { for (size_t i = 1; i < F2N && nsel < 400; i += 1 + F2N / 400) sel[nsel++] = i2f(i); sel[nsel++] = f2(1, 0); sel[nsel++] = f2(-1, 0); }
                else for (size_t i = 1; i < F2N; ++i) { F2 x = i2f(i), t = F0; int v = xorder3(A, x, &t); int c = (v + 1) + 10 * fissq(wrhs(wmont(A), x)); if (seen[c]++ < (v == MC_E3 ? 24 : 6)) sel[nsel++] = x; }
                for (size_t i = 1; i < F2N; ++i) { if (i % ns != sh) continue; for (int k = 0; k < nsel; ++k) {
                    // third coordinate x with get_A(a,b,x) = A:  (1 - ab - (a+b)x)^2 = 4abx(A + a + b + x)
                    F2 a = i2f(i), b = sel[k]; if (fz(b)) continue; F2 ab = fmul(a,b), s1 = fadd(a,b), c0 = fsub(F1, ab);
                    F2 q2 = fsub(fsq(s1), fmk(ab,4)), q1 = fsub(fmk(fmul(c0, s1), -2), fmk(fmul(ab, fadd(A, s1)), 4)), q0 = fsq(c0);
                    if (fz(q2)) { if (!fz(q1)) c15_one(a, b, fneg_(fmul(q0, finv(q1)))); continue; }
                    F2 d = fsub(fsq(q1), fmk(fmul(q2,q0),4)); if (!fissq(d)) continue; F2 r = fsqrt_(d), iv = finv(fadd(q2,q2));
                    c15_one(a, b, fmul(fsub(r, q1), iv)); c15_one(a, b, fmul(fsub(fneg_(r), q1), iv));
                } }
            }
        }
        mc_sample("p=%d: %lu non-degenerate keys among %lu", P_, mc_n_nontriv, mc_n_exec);
    }
    return mc_finish();
}
