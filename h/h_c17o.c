// C17, the number-theoretic parts of compression: arithmetic modulo the two group orders over a boundary alphabet, and the
// discrete logarithms of every power of the pairing group with few digits, against GMP.  INC is P*_compressed.c.
#include <gmp.h>
#include "mc.h"
#include INC
int randombytes(unsigned char *x, unsigned long long n) { for (unsigned long long i = 0; i < n; ++i) x[i] = (unsigned char)(i*37+11); return 0; }
#define OW NWORDS_ORDER
#define CK(cond, ...) do { mc_n_exec++; if (!(cond)) mc_violation(__VA_ARGS__); } while (0)
static mpz_t h_p, h_A, h_B, h_R;        // p, 2^e2, 3^e3, 2^(64*OW)
static void get(mpz_t z, const digit_t *w, int n) { mpz_import(z, n, -1, 8, 0, 0, w); }
static void put(digit_t *w, const mpz_t z, int n) { memset(w, 0, 8*n); mpz_export(w, NULL, -1, 8, 0, 0, z); }
static char *hex(const mpz_t z) { static char b[8][600]; static int k; k = (k+1)&7; mpz_get_str(b[k], 16, z); return b[k]; }

#define MAXV 20000
static mpz_t val[MAXV]; static int nval;
static void addv(const mpz_t z, const mpz_t lim) { if (mpz_sgn(z) < 0 || mpz_cmp(z, lim) >= 0 || nval >= MAXV) return; mpz_init_set(val[nval++], z); }
static void nearv(const mpz_t z, int d, const mpz_t lim) { mpz_t t; mpz_init(t); for (int k = -d; k <= d; ++k) { if (k < 0) mpz_sub_ui(t, z, -k); else mpz_add_ui(t, z, k); addv(t, lim); } mpz_clear(t); }
static int zcmp(const void *a, const void *b) { return mpz_cmp(*(mpz_t const *)a, *(mpz_t const *)b); }
static void uniqv(void) { qsort(val, nval, sizeof *val, zcmp); int m = 0; for (int i = 0; i < nval; ++i) if (!m || mpz_cmp(val[i], val[m-1])) { mpz_swap(val[m], val[i]); m++; } nval = m; }
static void operands(const mpz_t o, int step)
{
    mpz_t t, u; mpz_inits(t, u, NULL);
    nearv(t, 4, o); nearv(o, 4, o); mpz_fdiv_q_2exp(t, o, 1); nearv(t, 2, o); mpz_fdiv_q_ui(t, o, 3); nearv(t, 1, o); mpz_mod(t, h_R, o); nearv(t, 2, o); mpz_mul(t, t, t); mpz_mod(t, t, o); nearv(t, 1, o);
    for (unsigned b = 1; b < 64*OW; b += step) { mpz_set_ui(t, 0); mpz_setbit(t, b); nearv(t, b % 64 < 2 || b % 64 > 62 ? 2 : 1, o); mpz_sub(t, o, t); nearv(t, 1, o); }
    for (unsigned b = 0; b < OBOB_EXPON; b += step) { mpz_ui_pow_ui(t, 3, b); nearv(t, 1, o); mpz_sub(t, o, t); nearv(t, 1, o); mpz_mul_2exp(t, t, b); mpz_mod(t, t, o); addv(t, o); }
    for (int m = 0; m < (1 << OW); ++m) for (int k = 0; k < 3; ++k) {        // words of zeros and ones
        mpz_set_ui(t, 0); for (int i = 0; i < OW; ++i) if (m >> i & 1) { mpz_set_ui(u, 0); mpz_setbit(u, 64); mpz_sub_ui(u, u, 1+k); mpz_mul_2exp(u, u, 64*i); mpz_add(t, t, u); }
        mpz_mod(u, t, o); addv(u, o); mpz_fdiv_r_2exp(u, t, mpz_sizeinbase(o, 2)-1); addv(u, o);
    }
    for (int i = 0; i < 8; ++i) { mpz_set_ui(t, 0); for (int j = 0; j < OW; ++j) { mpz_mul_2exp(t, t, 64); mpz_add_ui(t, t, mc_mix(i*64+j+5)); } mpz_mod(t, t, o); addv(t, o); }
    uniqv(); mpz_clears(t, u, NULL);
}
static void ord(int sh, int nsh, int thor)
{
    digit_t a[OW], b[OW], c[OW], d[2*OW]; mpz_t x, y, z, w, Ri; mpz_inits(x, y, z, w, Ri, NULL);
    digit_t *oB = (digit_t *)Bob_order, *oA = (digit_t *)Alice_order, *r2 = (digit_t *)&Montgomery_RB2, *r1 = (digit_t *)&Montgomery_RB1;
    mpz_invert(Ri, h_R, h_B);
    nval = 0; operands(h_B, thor ? 1 : 5);
    for (int i = 0; i < nval; ++i) {
        put(a, val[i], OW); mc_context("order arithmetic, operand %s", hex(val[i])); alarm(60);
        if (i % nsh == sh) {
            mc_n_state++;
            to_Montgomery_mod_order(a, c, oB, r2, r1); get(x, c, OW); mpz_mul(y, val[i], h_R); mpz_mod(y, y, h_B);
            CK(mpz_cmp(x, h_B) < 0 && !mpz_cmp(x, y), "to_Montgomery_mod_order(%s) = %s", hex(val[i]), hex(x));
            from_Montgomery_mod_order(a, c, oB, r2); get(x, c, OW); mpz_mul(y, val[i], Ri); mpz_mod(y, y, h_B);
            CK(mpz_cmp(x, h_B) < 0 && !mpz_cmp(x, y), "from_Montgomery_mod_order(%s) = %s", hex(val[i]), hex(x));
            if (mpz_fdiv_ui(val[i], 3)) {
                Montgomery_inversion_mod_order_bingcd(a, c, oB, r2, r1); get(x, c, OW); mpz_mul(y, x, val[i]); mpz_mul(z, h_R, h_R); mpz_sub(y, y, z);
                CK(mpz_divisible_p(y, h_B), "Montgomery_inversion_mod_order_bingcd(%s) = %s", hex(val[i]), hex(x)); mc_n_nontriv++;
            }
            put(c, val[i], OW); Montgomery_neg(c, oB); get(x, c, OW); mpz_add(x, x, val[i]); CK(mpz_divisible_p(x, h_B), "Montgomery_neg(%s) modulo 3^e", hex(val[i]));
        }
        for (int j = i % nsh == sh ? 0 : nval; j < nval; ++j) {
            put(b, val[j], OW); mc_n_trans++;
            Montgomery_multiply_mod_order(a, b, c, oB, r2); get(x, c, OW); mpz_mul(y, val[i], val[j]); mpz_mul(y, y, Ri); mpz_mod(y, y, h_B);
            CK(mpz_cmp(x, h_B) < 0 && !mpz_cmp(x, y), "Montgomery_multiply_mod_order(%s,%s) = %s", hex(val[i]), hex(val[j]), hex(x));
        }
    }
    nval = 0; operands(h_A, thor ? 1 : 3);
    for (unsigned s = 1; s < OALICE_BITS; ++s) {       // every valuation of a-1
        for (int k = -3; k <= 3; k += 2) { mpz_set_si(x, k); mpz_mul_2exp(x, x, s); mpz_add_ui(x, x, 1); mpz_mod(x, x, h_A); addv(x, h_A); }
    }
    uniqv();
    for (int i = sh; i < nval; i += nsh) {
        put(a, val[i], OW); mc_context("order arithmetic, operand %s", hex(val[i])); mc_n_state++; alarm(60);
        if (mpz_odd_p(val[i])) {
            inv_mod_orderA(a, c); get(x, c, OW); mpz_mul(y, x, val[i]); mpz_sub_ui(y, y, 1);
            CK(mpz_divisible_p(y, h_A), "inv_mod_orderA(%s) = %s", hex(val[i]), hex(x)); mc_n_nontriv++;
        }
        put(c, val[i], OW); Montgomery_neg(c, oA); get(x, c, OW); mpz_add(x, x, val[i]); CK(mpz_divisible_p(x, h_A), "Montgomery_neg(%s) modulo 2^e", hex(val[i]));
        for (int j = 0; j < nval; ++j) {
            put(b, val[j], OW); mc_n_trans++; multiply(a, b, d, OW); get(x, d, 2*OW); mpz_mul(y, val[i], val[j]);
            CK(!mpz_cmp(x, y), "multiply(%s,%s) = %s", hex(val[i]), hex(val[j]), hex(x));
        }
    }
}

// elements of norm 1 as pairs of integers modulo p
typedef struct { mpz_t a, b; } el;
static void eli(el *x) { mpz_inits(x->a, x->b, NULL); }
static void elmul(el *r, const el *x, const el *y)
{
    static mpz_t s, t, u, v; static int k; if (!k++) mpz_inits(s, t, u, v, NULL);
    mpz_mul(s, x->a, y->a); mpz_mul(t, x->b, y->b); mpz_mul(u, x->a, y->b); mpz_mul(v, x->b, y->a);
    mpz_sub(s, s, t); mpz_add(u, u, v); mpz_mod(r->a, s, h_p); mpz_mod(r->b, u, h_p);
}
static void elpow(el *r, const el *x, const mpz_t e)
{
    el y; eli(&y); mpz_set_ui(y.a, 1);
    for (long i = (long)mpz_sizeinbase(e, 2)-1; i >= 0; --i) { elmul(&y, &y, &y); if (mpz_tstbit(e, i)) elmul(&y, &y, x); }
    mpz_set(r->a, y.a); mpz_set(r->b, y.b); mpz_clears(y.a, y.b, NULL);
}
static void tof2(f2elm_t f, const el *x, int rep)
{
    mpz_t t, R; mpz_inits(t, R, NULL); mpz_setbit(R, 64*NWORDS_FIELD);
    mpz_mul(t, x->a, R); mpz_mod(t, t, h_p); if (rep & 1) mpz_add(t, t, h_p); put(f[0], t, NWORDS_FIELD);
    mpz_mul(t, x->b, R); mpz_mod(t, t, h_p); if (rep & 2) mpz_add(t, t, h_p); put(f[1], t, NWORDS_FIELD);
    mpz_clears(t, R, NULL);
}
static void logof(mpz_t z, const el *x, int ell, int rep)
{
    f2elm_t f; tof2(f, x, rep); digit_t d[OW] = { 0 }; int Dg[DLEN_3 > DLEN_2 ? DLEN_3 : DLEN_2]; memset(Dg, 0, sizeof Dg);
    solve_dlog(f, Dg, d, ell); get(z, d, OW);
}
static void dlog(int sh, int nsh, int thor, int ell)
{
    mpz_t o, co, t, u, d0; mpz_inits(o, co, t, u, d0, NULL); mpz_set(o, ell == 2 ? h_A : h_B); int e = ell == 2 ? OALICE_BITS : OBOB_EXPON, w = ell == 2 ? W_2 : W_3;
    mpz_add_ui(co, h_p, 1); mpz_divexact(co, co, o);
    el r0, g, y; eli(&r0); eli(&g); eli(&y);
    // a generator: ((k+i)/(k-i))^cofactor of full order
    for (unsigned k = 2; ; ++k) {
        mpz_set_ui(r0.a, k); mpz_set_ui(r0.b, 1); elmul(&r0, &r0, &r0); mpz_set_ui(t, k*k+1); mpz_invert(t, t, h_p); mpz_mul(r0.a, r0.a, t); mpz_mod(r0.a, r0.a, h_p); mpz_mul(r0.b, r0.b, t); mpz_mod(r0.b, r0.b, h_p);
        elpow(&r0, &r0, co); mpz_divexact_ui(t, o, ell); elpow(&y, &r0, t); if (mpz_cmp_ui(y.a, 1)) break;
    }
    mc_context("solve_dlog of a generator"); alarm(60); logof(d0, &r0, ell, 0);
    if (mpz_divisible_ui_p(d0, ell)) { mc_violation("the discrete logarithm to base %d of a generator is %s", ell, hex(d0)); return; }
    mpz_invert(t, d0, o); elpow(&g, &r0, t);
    nval = 0; mpz_set_ui(t, 0); nearv(t, 3, o); nearv(o, 3, o);
    long ew = 1; for (int i = 0; i < w; ++i) ew *= ell;
    for (int j = 0; j < e; j += w) for (long d = 1; d <= ew/2+1; d += thor || d < 6 || d > ew/2-6 ? 1 : 3) {     // one window
        mpz_ui_pow_ui(t, ell, j); mpz_mul_ui(t, t, d); mpz_mod(u, t, o); addv(u, o); mpz_sub(t, o, u); addv(t, o);
    }
    for (int j = 0; j < e; ++j) {                                                  // powers, runs of the largest and of equal digits
        mpz_ui_pow_ui(t, ell, j); nearv(t, 2, o); mpz_sub(u, o, t); nearv(u, 2, o); mpz_fdiv_q_ui(u, t, 2); addv(u, o); mpz_mul_ui(u, t, 2); nearv(u, 1, o);
        if (j % (thor ? 1 : 3) == 0) for (int k = 0; k < j; k += thor ? 2 : 17) { mpz_ui_pow_ui(u, ell, k); mpz_sub(u, t, u); addv(u, o); mpz_fdiv_q_ui(u, u, ell == 3 ? 2 : 3); addv(u, o); mpz_ui_pow_ui(u, ell, k); mpz_add(u, t, u); addv(u, o); }
    }
    for (int i = 0; i < (thor ? 400 : 40); ++i) { mpz_set_ui(t, 0); for (int j = 0; j < OW; ++j) { mpz_mul_2exp(t, t, 64); mpz_add_ui(t, t, mc_mix(i*64+j+77)); } mpz_mod(t, t, o); addv(t, o); }
    uniqv();
    mpz_set_ui(u, 0); mpz_setbit(u, OALICE_BITS-1);
    for (int i = sh; i < nval; i += nsh) {
        if (ell == 2 && !mpz_cmp(val[i], u)) continue;      // the element -1 has no projective form toproj() could give it
        elpow(&y, &g, val[i]); mc_n_state++; mc_n_trans++; mc_n_nontriv++;
        mc_context("solve_dlog(g^%s), base %d", hex(val[i]), ell); alarm(60);
        logof(t, &y, ell, i & 3); mpz_sub(d0, t, val[i]);       // representatives below 2p
        CK(mpz_divisible_p(d0, o), "discrete logarithm to base %d of g^%s is %s", ell, hex(val[i]), hex(t));
        if (ell == 3) CK(mpz_cmp(t, o) <= 0, "discrete logarithm to base 3 of g^%s is not reduced: %s", hex(val[i]), hex(t));
    }
}
#ifdef ELL
// the points of the deterministic 3^e basis: for every counter value a point of the curve, and the same one for the receiver
static void fromf2(el *x, const f2elm_t f)
{
    mpz_t R; mpz_init(R); mpz_setbit(R, 64*NWORDS_FIELD); mpz_invert(R, R, h_p);
    get(x->a, f[0], NWORDS_FIELD); mpz_mul(x->a, x->a, R); mpz_mod(x->a, x->a, h_p); get(x->b, f[1], NWORDS_FIELD); mpz_mul(x->b, x->b, R); mpz_mod(x->b, x->b, h_p); mpz_clear(R);
}
static void ell(int sh, int nsh, int thor)
{
    el A, a24, x, x2, y; eli(&A); eli(&a24); eli(&x); eli(&x2); eli(&y); mpz_t q, n; mpz_inits(q, n, NULL); mpz_set_ui(q, 4); mpz_invert(q, q, h_p);
    int na = thor ? 200 : 24;
    for (int i = 0, unit = 0; i < na; ++i) for (unsigned r = 0; r < 255; ++r) {
        if (unit++ % nsh != sh) continue;
        if (i < 8) { mpz_set_ui(A.a, i < 4 ? i + 3 : 0); mpz_set_ui(A.b, i < 4 ? 0 : i - 3); }
        else { mpz_set_ui(A.a, 0); mpz_set_ui(A.b, 0); for (int k = 0; k < NWORDS_FIELD; ++k) { mpz_mul_2exp(A.a, A.a, 64); mpz_add_ui(A.a, A.a, mc_mix(i*100+k)); mpz_mul_2exp(A.b, A.b, 64); mpz_add_ui(A.b, A.b, mc_mix(i*100+k+50)); } mpz_mod(A.a, A.a, h_p); mpz_mod(A.b, A.b, h_p); }
        mpz_add_ui(a24.a, A.a, 2); mpz_mul(a24.a, a24.a, q); mpz_mod(a24.a, a24.a, h_p); mpz_mul(a24.b, A.b, q); mpz_mod(a24.b, a24.b, h_p);
        mc_context("basis point for A = %s + i %s, counter %u", hex(A.a), hex(A.b), r); alarm(60); mc_n_state++; mc_n_trans += 2; mc_n_nontriv++;
        f2elm_t c, X; tof2(c, &a24, 0); unsigned char bit = 0, b2; Elligator2(c, r, X, &bit, COMPRESSION); fromf2(&x, X);
        elmul(&y, &x, &x); mpz_add(n, x.a, A.a); mpz_set(x2.a, n); mpz_add(x2.b, x.b, A.b); elmul(&y, &x, &x2); mpz_add_ui(y.a, y.a, 1); elmul(&y, &y, &x);     // x (x (x + A) + 1)
        mpz_mul(n, y.a, y.a); mpz_addmul(n, y.b, y.b); mpz_mod(n, n, h_p);
        CK(mpz_legendre(n, h_p) >= 0, "counter %u gives no point of the curve A = %s + i %s", r, hex(A.a), hex(A.b));
        b2 = bit; tof2(c, &a24, 0); Elligator2(c, r, X, &b2, DECOMPRESSION); fromf2(&x2, X);
        CK(!mpz_cmp(x.a, x2.a) && !mpz_cmp(x.b, x2.b), "the receiver's point for counter %u differs from the sender's on the curve A = %s + i %s", r, hex(A.a), hex(A.b));
        bit ^= 1; Elligator2(c, r, X, &bit, DECOMPRESSION); fromf2(&y, X); mpz_add(n, y.a, x.a); mpz_add(n, n, A.a); mpz_mod(n, n, h_p);
        CK(!mpz_sgn(n), "the two points for counter %u do not belong together on A = %s + i %s", r, hex(A.a), hex(A.b));
    }
}
#endif
int main(int argc, char **argv)
{
    mc_start(); if (argc < 5) return 2; int sh = atoi(argv[2]), nsh = atoi(argv[3]), thor = atoi(argv[4]);
    mpz_inits(h_p, h_A, h_B, h_R, NULL);
    mpz_ui_pow_ui(h_A, 2, OALICE_BITS); mpz_ui_pow_ui(h_B, 3, OBOB_EXPON); mpz_mul(h_p, h_A, h_B); mpz_sub_ui(h_p, h_p, 1); mpz_setbit(h_R, 64*OW);
    if (!strcmp(argv[1], "ord")) ord(sh, nsh, thor);
    else if (!strcmp(argv[1], "dlog2")) dlog(sh, nsh, thor, 2);
    else if (!strcmp(argv[1], "dlog3")) dlog(sh, nsh, thor, 3);
#ifdef ELL
    else if (!strcmp(argv[1], "ell")) ell(sh, nsh, thor);
#endif
    else return 2;
    return mc_finish();
}
