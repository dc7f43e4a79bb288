// C11: the field code over the real primes, every operand tuple of a boundary alphabet, against GMP.
// INC is the parameter-set source (P434/P434.c or P434/P434_compressed.c).
#include <gmp.h>
#include "mc.h"
#include INC
// names of this file, kept apart from those of the source
#define mod h11_mod
#define mulmod h11_mulmod
#define addmod h11_addmod
#define submod h11_submod
#define powmod h11_powmod
#define eqres h11_eqres
#define hx h11_hx
#define xb h11_xb
#define fe h11_fe
#define set h11_set
#define fecmp h11_fecmp
#define add_lt h11_add_lt
#define uniq h11_uniq
#define near h11_near
#define gen h11_gen
#define boundary h11_boundary
#define words h11_words
#define sh h11_sh
#define nsh h11_nsh
#define thor h11_thor
#define turn h11_turn
#define mine h11_mine
#define lin1 h11_lin1
#define lin2 h11_lin2
#define mul2 h11_mul2
#define mulp h11_mulp
#define rdc h11_rdc
#define rdc_cols h11_rdc_cols
#define f2chk h11_f2chk
#define fp2one h11_fp2one
#define fp2two h11_fp2two
#define inv1 h11_inv1
#define inv2 h11_inv2
#define P h11_P
#define P2 h11_P2
#define P4 h11_P4
#define Rm h11_Rm
#define Rinv h11_Rinv
#define N NWORDS_FIELD
#define D(x) ((const digit_t *)(x))
int randombytes(unsigned char *x, unsigned long long n) { for (unsigned long long i = 0; i < n; ++i) x[i] = (unsigned char)(i*37+11); return 0; }

static mp_limb_t P[N], P2[N], P4[N], Rm[N], Rinv[N];     // p, 2p, 4p, R mod p, 1/R mod p
static char xb[4][2*N*16+8];
static const char *hx(int k, const digit_t *a, int n) { char *o = xb[k]; for (int i = n-1; i >= 0; --i) o += sprintf(o, "%016llx", (unsigned long long)a[i]); return xb[k]; }
static void mod(mp_limb_t *r, const mp_limb_t *a, int n) { mp_limb_t q[2*N+4]; if (n < N) { mpn_zero(r, N); mpn_copyi(r, a, n); return; } mpn_tdiv_qr(q, r, 0, a, n, P, N); }
static void mulmod(mp_limb_t *r, const mp_limb_t *a, const mp_limb_t *b) { mp_limb_t t[2*N]; mpn_mul_n(t, a, b, N); mod(r, t, 2*N); }
static void addmod(mp_limb_t *r, const mp_limb_t *a, const mp_limb_t *b) { mp_limb_t t[N+1]; t[N] = mpn_add_n(t, a, b, N); mod(r, t, N+1); }
static void submod(mp_limb_t *r, const mp_limb_t *a, const mp_limb_t *b) { mp_limb_t x[N], y[N]; mod(x, a, N); mod(y, b, N); if (mpn_sub_n(r, x, y, N)) mpn_add_n(r, r, P, N); }
static void powmod(mp_limb_t *r, const mp_limb_t *a, const mp_limb_t *e)
{
    mp_limb_t x[N], y[N] = { 1 }; mod(x, a, N);
    for (int i = 64*N-1; i >= 0; --i) { mulmod(y, y, y); if (e[i/64] >> (i%64) & 1) mulmod(y, y, x); }
    mpn_copyi(r, y, N);
}
static bool eqres(const digit_t *c, const mp_limb_t *want) { mp_limb_t r[N]; mod(r, c, N); return !mpn_cmp(r, want, N); }    // c = want mod p

// ---- alphabets -----------------------------------------------------------------------------------
typedef digit_t fe[N];
typedef struct { fe *v; int n, cap; } set;
static int fecmp(const void *a, const void *b) { return mpn_cmp(a, b, N); }
static void add_lt(set *s, const mp_limb_t *x, const mp_limb_t *lim) { if (mpn_cmp(x, lim, N) >= 0) return; if (s->n == s->cap) s->v = realloc(s->v, sizeof(fe)*(s->cap = 2*s->cap+64)); mpn_copyi(s->v[s->n++], x, N); }
static void uniq(set *s) { qsort(s->v, s->n, sizeof(fe), fecmp); int m = 0; for (int i = 0; i < s->n; ++i) if (!i || mpn_cmp(s->v[i], s->v[m-1], N)) memmove(s->v[m++], s->v[i], sizeof(fe)); s->n = m; }
static void near(set *s, const mp_limb_t *x, int d, const mp_limb_t *lim) { for (int k = -d; k <= d; ++k) { fe t; mp_limb_t c = k < 0 ? mpn_sub_1(t, x, N, -k) : mpn_add_1(t, x, N, k); if (!c) add_lt(s, t, lim); } }
static void gen(fe t, int i) { for (int j = 0; j < N; ++j) t[j] = mc_mix(i*100+j+1); mp_limb_t r[N]; mod(r, t, N); mpn_copyi(t, r, N); }    // fixed values without structure
// boundary values of the whole number: multiples of p, powers of two, Montgomery constants
static void boundary(set *s, int d, int step, const mp_limb_t *lim)
{
    fe z = { 0 }, t, h; near(s, z, d, lim);
    mpn_rshift(h, P, N, 1); near(s, h, d, lim); near(s, P, d, lim); near(s, P2, d, lim);
    mpn_add_n(t, P, h, N); near(s, t, d, lim); mpn_add_n(t, P2, P, N); near(s, t, d, lim); near(s, P4, d, lim);
    near(s, Rm, 1, lim); near(s, Rinv, 1, lim); mulmod(t, Rm, Rm); near(s, t, 1, lim);
    mpn_sub_n(t, P, Rm, N); near(s, t, 1, lim); mpn_add_n(t, P, Rm, N); near(s, t, 1, lim);
    for (int b = 0; b < 64*N; ++b) {
        int w = b % 64; if (step > 1 && w % step && w > 1 && w < 62) continue;
        mpn_zero(t, N); t[b/64] = (mp_limb_t)1 << w;
        fe q; add_lt(s, t, lim); mpn_sub_1(q, t, N, 1); add_lt(s, q, lim);
        if (mpn_cmp(t, P, N) < 0) { mpn_sub_n(q, P, t, N); add_lt(s, q, lim); mpn_add_n(q, P, t, N); add_lt(s, q, lim); }
        if (mpn_cmp(t, P2, N) < 0) { mpn_sub_n(q, P2, t, N); add_lt(s, q, lim); }
    }
    for (int i = 0; i < 4; ++i) { gen(t, i); add_lt(s, t, lim); mpn_add_n(t, t, P, N); add_lt(s, t, lim); }
}
// every word from a small alphabet; `tr` limits the number of changes between neighbouring words
static void words(set *s, const mp_limb_t *al, int na, int tr, const mp_limb_t *lim)
{
    mp_limb_t top[8]; int nt = 0; top[nt++] = 0; top[nt++] = 1; top[nt++] = P[N-1]; top[nt++] = P2[N-1]; top[nt++] = P[N-1]-1; top[nt++] = P2[N-1]-1;
    int ix[N] = { 0 };
    for (;;) {
        int c = 0; for (int i = 1; i < N-1; ++i) c += ix[i] != ix[i-1];
        if (c <= tr) for (int k = 0; k < nt; ++k) { fe t; for (int i = 0; i < N-1; ++i) t[i] = al[ix[i]]; t[N-1] = top[k]; add_lt(s, t, lim); }
        int i = 0; while (i < N-1 && ++ix[i] == na) ix[i++] = 0;
        if (i == N-1) break;
    }
}

static int sh, nsh, thor;
static unsigned long turn; static bool mine(void) { return (int)(turn++ % nsh) == sh; }
#define CK(cond, ...) do { mc_n_exec++; if (!(cond)) mc_violation(__VA_ARGS__); } while (0)
#define LT2P(c) (mpn_cmp(c, P2, N) < 0)

static void lin1(const fe a)
{
    fe c; mp_limb_t w[N];
    fpcopy(a, c); fpneg(c); mpn_sub_n(w, P2, a, N); mp_limb_t m[N]; mod(m, w, N);
    CK(mpn_cmp(c, P2, N) <= 0 && eqres(c, m), "fpneg(%s) = %s", hx(0, a, N), hx(1, c, N));
    memset(c, 0xA5, sizeof c); fpdiv2(a, c); mp_limb_t t[N]; addmod(t, c, c); mod(m, a, N);
    CK(LT2P(c) && !mpn_cmp(t, m, N), "fpdiv2(%s) = %s", hx(0, a, N), hx(1, c, N));
    fpcopy(a, c); fpdiv2(c, c); addmod(t, c, c); CK(LT2P(c) && !mpn_cmp(t, m, N), "fpdiv2 in place (%s) = %s", hx(0, a, N), hx(1, c, N));
    fpcopy(a, c); fpcorrection(c); CK(!mpn_cmp(c, m, N), "fpcorrection(%s) = %s", hx(0, a, N), hx(1, c, N));
    // conversions (from_mont is also applied to values above p)
    mulmod(t, m, Rinv); memset(c, 0xA5, sizeof c); from_mont(a, c); CK(!mpn_cmp(c, t, N), "from_mont(%s) = %s", hx(0, a, N), hx(1, c, N));
    mulmod(t, m, Rm); memset(c, 0xA5, sizeof c); to_mont(a, c); CK(LT2P(c) && eqres(c, t), "to_mont(%s) = %s", hx(0, a, N), hx(1, c, N));
    memset(c, 0xA5, sizeof c); fpsqr_mont(a, c); mulmod(t, m, m); mulmod(t, t, Rinv); CK(LT2P(c) && eqres(c, t), "fpsqr_mont(%s) = %s", hx(0, a, N), hx(1, c, N));
    f2elm_t z, y; unsigned char enc[FP2_ENCODED_BYTES+8]; memset(enc, 0x5A, sizeof enc);
    fpcopy(a, z[0]); fpcopy(a, z[1]); fp2_encode(z, enc); mulmod(t, m, Rinv);
    CK(!memcmp(enc, t, FP2_ENCODED_BYTES/2) && !memcmp(enc+FP2_ENCODED_BYTES/2, t, FP2_ENCODED_BYTES/2) && enc[FP2_ENCODED_BYTES] == 0x5A, "fp2_encode(%s)", hx(0, a, N));
    if (mpn_cmp(a, P, N) < 0) {
        memcpy(enc, a, FP2_ENCODED_BYTES/2); memcpy(enc+FP2_ENCODED_BYTES/2, a, FP2_ENCODED_BYTES/2); memset(y, 0xA5, sizeof y);
        fp2_decode(enc, y); mulmod(t, a, Rm);
        CK(LT2P(y[0]) && eqres(y[0], t) && LT2P(y[1]) && eqres(y[1], t), "fp2_decode(%s)", hx(0, a, N));
        unsigned char e2[FP2_ENCODED_BYTES]; fp2_encode(y, e2); CK(!memcmp(enc, e2, FP2_ENCODED_BYTES), "fp2_decode/fp2_encode round trip of %s", hx(0, a, N));
    }
    fpcopy(a, z[0]); fpzero(z[1]); fpcopy(a, c); mp_shiftr1(c, N); mpn_rshift(t, a, N, 1); CK(!mpn_cmp(c, t, N), "mp_shiftr1(%s) = %s", hx(0, a, N), hx(1, c, N));
    fpcopy(a, c); mp_shiftl1(c, N); mpn_lshift(t, a, N, 1); CK(!mpn_cmp(c, t, N), "mp_shiftl1(%s) = %s", hx(0, a, N), hx(1, c, N));
    mc_n_state++;
}
static void lin2(const fe a, const fe b)
{
    fe c; mp_limb_t w[N]; mp_limb_t cy;
    cy = mpn_add_n(w, a, b, N); if (cy || mpn_cmp(w, P2, N) >= 0) mpn_sub_n(w, w, P2, N);      // in [0,2p): unique up to p
    fpadd(a, b, c); bool ok = LT2P(c); if (ok && mpn_cmp(c, w, N)) { mp_limb_t m[N]; addmod(m, a, b); ok = eqres(c, m); }
    CK(ok, "fpadd(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
    fe d; fpcopy(a, d); fpadd(d, b, d); CK(!mpn_cmp(c, d, N), "fpadd in place (%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, d, N));
    fpcopy(b, d); fpadd(a, d, d); CK(!mpn_cmp(c, d, N), "fpadd in place 2 (%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, d, N));
    if (mpn_sub_n(w, a, b, N)) mpn_add_n(w, w, P2, N);
    fpsub(a, b, c); ok = LT2P(c); if (ok && mpn_cmp(c, w, N)) { mp_limb_t m[N]; submod(m, a, b); ok = eqres(c, m); }
    CK(ok, "fpsub(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
    fpcopy(a, d); fpsub(d, b, d); CK(!mpn_cmp(c, d, N), "fpsub in place (%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, d, N));
    fpcopy(b, d); fpsub(a, d, d); CK(!mpn_cmp(c, d, N), "fpsub in place 2 (%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, d, N));
    // uncorrected helpers used by the curve code
    mpn_add_n(w, a, b, N); CK(mp_add(a, b, c, N) == 0 && !mpn_cmp(c, w, N), "mp_add(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
    cy = mpn_sub_n(w, a, b, N); CK((mp_sub(a, b, c, N) != 0) == (cy != 0) && !mpn_cmp(c, w, N), "mp_sub(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
    mpn_add_n(w, w, P2, N); mp_sub_p2(a, b, c); CK(!mpn_cmp(c, w, N), "mp_sub_p2(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
#if defined(_GENERIC_) || NBITS_FIELD == 751
    mpn_add_n(w, w, P2, N); mp_sub_p4(a, b, c); CK(!mpn_cmp(c, w, N), "mp_sub_p4(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
#endif
    mc_n_state++; mc_n_trans += 9;
}
static void mul2(const fe a, const fe b)
{
    fe c; mp_limb_t t[2*N], u[2*N+1], q[N+2], r[N];
    mpn_mul_n(t, a, b, N);
    fpmul_mont(a, b, c);
    // c*R = a*b mod p, c < 2p
    mpn_copyi(u, t, 2*N); mp_limb_t bw = mpn_sub_n(u+N, u+N, c, N); u[2*N] = 0;
    if (bw) { if (!mpn_add_n(u+N, u+N, P2, N)) { /* still negative */ mpn_add_n(u+N, u+N, P2, N); } }
    mpn_tdiv_qr(q, r, 0, u, 2*N, P, N);
    CK(LT2P(c) && mpn_zero_p(r, N), "fpmul_mont(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, N));
    mc_n_state++; mc_n_trans++;
}
#if defined(_GENERIC_) || NBITS_FIELD == 751
static void mulp(const fe a, const fe b)
{
    digit_t c[2*N]; mp_limb_t t[2*N]; mpn_mul_n(t, a, b, N); mp_mul(a, b, c, N);
    CK(!mpn_cmp(c, t, 2*N), "mp_mul(%s, %s) = %s", hx(0, a, N), hx(1, b, N), hx(2, c, 2*N));
}
// reduction: all inputs x*R - m*p with m, x from the alphabet; the reduction adds m*p, so intermediate words are those of m and x
static void rdc(const mp_limb_t *m, const mp_limb_t *x)
{
    mp_limb_t t[2*N], y[N]; digit_t c[N], in[2*N];
    mpn_mul_n(t, m, P, N); mpn_copyi(y, x, N);
    mp_limb_t u[2*N]; mpn_zero(u, N); mpn_copyi(u+N, y, N);
    if (mpn_cmp(u, t, 2*N) < 0) { if (mpn_add_n(u+N, u+N, P, N) || mpn_cmp(u, t, 2*N) < 0) return; }
    mpn_sub_n(u, u, t, 2*N);
    if (mpn_cmp(u+N, P, N) >= 0) return;                 // documented: input below p*R
    for (int i = 0; i < 2*N; ++i) in[i] = u[i];
    rdc_mont(in, c);
    mod(y, x, N);
    CK(LT2P(c) && eqres(c, y), "rdc_mont(%s) = %s", hx(0, u, 2*N), hx(1, c, N));
    mc_n_state++; mc_n_trans++;
}
// inputs on which the running column sum of the reduction is just below a multiple of 2^128 with a carry coming in from the input word
static void rdc_cols(void)
{
    mp_limb_t Q[N]; mpn_add_1(Q, P, N, 1);               // the reduction multiplies by p+1
    int z = 0; while (!Q[z]) z++;
    mp_limb_t fills[] = { 0, 1, ~(mp_limb_t)0, 0x8000000000000000ull, 0x123456789abcdef1ull };
    for (int i = z; i < 2*N-1; ++i) for (int j = 0; j < N; ++j) {
        if (i-j < z || i-j >= N) continue;
        for (unsigned f = 0; f < 5; ++f) for (unsigned g = 0; g < 5; ++g) for (int d = 0; d < 8; ++d) {
            if (!mine()) continue;
            mp_limb_t m[N], x[N]; mpn_zero(x, N);
            for (int k = 0; k < N; ++k) m[k] = k < j ? fills[f] : k == j ? 0 : fills[g];
            if (i < N) m[i] = d & 1 ? 0 : 5;             // low column i is forced to m[i]: a small value there makes a carry
            // sum of the columns up to i without the term of j, as a number at weight 2^(64 i)
            mp_limb_t s[2*N+2]; mpn_zero(s, 2*N+2);
            for (int a = 0; a < N; ++a) for (int b = z; b < N; ++b) {
                int w = a+b; if (w > i || a == j && b == i-j) continue;
                unsigned __int128 pr = (unsigned __int128)m[a]*Q[b]; mp_limb_t pp[2] = { (mp_limb_t)pr, (mp_limb_t)(pr>>64) };
                mpn_add(s+w, s+w, 2*N+2-w, pp, 2);
            }
            mp_limb_t hi[2] = { s[i], s[i+1] };
            // want hi + m_j*Q[i-j] in [2^128 - 2^64, 2^128): m_j = floor((2^128 - 1 - hi)/Q) or nearby
            unsigned __int128 need = ~(unsigned __int128)0 - ((unsigned __int128)hi[1] << 64 | hi[0]);
            mp_limb_t qq = Q[i-j]; unsigned __int128 v = need/qq; if (v >> 64) { mp_limb_t n2[2] = { (mp_limb_t)need, (mp_limb_t)(need>>64) }; (void) n2; v = ~(mp_limb_t)0; }
            v -= v >= (unsigned)(d>>1) ? d>>1 : 0;
            m[j] = (mp_limb_t)v;
            if (i >= N) x[i-N] = d & 1 ? 0 : 5;
            rdc(m, x); gen(x, i*50+j); if (i >= N) x[i-N] = d & 1; rdc(m, x); mpn_sub_1(x, P, N, 1); rdc(m, x);
        }
    }
}
#endif

static void f2chk(const f2elm_t a, const f2elm_t b, const char *what, const f2elm_t c)
{
    mp_limb_t u[2*N+1], v[2*N+1], w0[N], w1[N], t[N], am[N], ap[N], bm[N], bp[N];
    mod(am, a[0], N); mod(ap, a[1], N); mod(bm, b[0], N); mod(bp, b[1], N); (void) u, (void) v;
    mulmod(w0, am, bm); mulmod(t, ap, bp); submod(w0, w0, t); mulmod(w0, w0, Rinv);
    mulmod(w1, am, bp); mulmod(t, ap, bm); addmod(w1, w1, t); mulmod(w1, w1, Rinv);
    CK(LT2P(c[0]) && LT2P(c[1]) && eqres(c[0], w0) && eqres(c[1], w1), "%s (%s,%s; %s,..)", what, hx(0, a[0], N), hx(1, a[1], N), hx(2, b[0], N));
}
static void fp2one(const fe x, const fe y, bool in2p)
{
    f2elm_t a, c, d; fpcopy(x, a[0]); fpcopy(y, a[1]);
    memset(c, 0xA5, sizeof c); fp2sqr_mont(a, c); f2chk(a, a, "fp2sqr_mont", c);
    fp2copy(a, d); fp2sqr_mont(d, d); CK(!memcmp(c, d, sizeof c), "fp2sqr_mont in place (%s,%s)", hx(0, x, N), hx(1, y, N));
    fp2mul_mont(a, a, c); f2chk(a, a, "fp2mul_mont(a,a)", c);
    if (in2p) {
        fp2copy(a, c); fp2neg(c); mp_limb_t t[N]; for (int k = 0; k < 2; ++k) { addmod(t, c[k], a[k]); CK(mpn_zero_p(t, N) && mpn_cmp(c[k], P2, N) <= 0, "fp2neg (%s,%s)", hx(0, x, N), hx(1, y, N)); }
        memset(c, 0xA5, sizeof c); fp2div2(a, c); for (int k = 0; k < 2; ++k) { mp_limb_t m[N]; addmod(t, c[k], c[k]); mod(m, a[k], N); CK(!mpn_cmp(t, m, N) && LT2P(c[k]), "fp2div2 (%s,%s)", hx(0, x, N), hx(1, y, N)); }
        fp2copy(a, c); fp2correction(c); for (int k = 0; k < 2; ++k) { mp_limb_t m[N]; mod(m, a[k], N); CK(!mpn_cmp(c[k], m, N), "fp2correction (%s,%s)", hx(0, x, N), hx(1, y, N)); }
    }
    mc_n_state++; mc_n_trans += 4;
}
static void fp2two(const f2elm_t a, const f2elm_t b, bool in2p, bool alias)
{
    f2elm_t c, d; memset(c, 0xA5, sizeof c); fp2mul_mont(a, b, c); f2chk(a, b, "fp2mul_mont", c);
    if (alias) {
        fp2copy(a, d); fp2mul_mont(d, b, d); CK(!memcmp(c, d, sizeof c), "fp2mul_mont in place 1 (%s,%s)", hx(0, a[0], N), hx(1, a[1], N));
        fp2copy(b, d); fp2mul_mont(a, d, d); CK(!memcmp(c, d, sizeof c), "fp2mul_mont in place 2 (%s,%s)", hx(0, a[0], N), hx(1, a[1], N));
    }
    if (in2p && alias) {
        mp_limb_t m[N];
        fp2add(a, b, c); for (int k = 0; k < 2; ++k) { addmod(m, a[k], b[k]); CK(LT2P(c[k]) && eqres(c[k], m), "fp2add (%s,%s)", hx(0, a[k], N), hx(1, b[k], N)); }
        fp2sub(a, b, c); for (int k = 0; k < 2; ++k) { submod(m, a[k], b[k]); CK(LT2P(c[k]) && eqres(c[k], m), "fp2sub (%s,%s)", hx(0, a[k], N), hx(1, b[k], N)); }
    }
    mc_n_state++; mc_n_trans++;
}
static void inv1(const fe a)
{
    fe c; mp_limb_t m[N], w[N], e[N], t[N];
    mod(m, a, N); bool zero = mpn_zero_p(m, N); mulmod(t, m, Rinv);
    mc_context("fpinv_mont(%s)", hx(0, a, N));
    fpcopy(a, c); fpinv_mont(c);                         // c = a^-1 in Montgomery form: c*a = R^2
    mulmod(w, m, c); mulmod(e, Rm, Rm); if (zero) mpn_zero(e, N);
    CK(LT2P(c) && !mpn_cmp(w, e, N) && (!zero || eqres(c, e)), "fpinv_mont(%s) = %s", hx(0, a, N), hx(1, c, N));
    mpn_sub_1(e, P, N, 3); mpn_rshift(e, e, N, 2); powmod(w, t, e); mulmod(w, w, Rm);
    fpcopy(a, c); fpinv_chain_mont(c); CK(LT2P(c) && eqres(c, w), "fpinv_chain_mont(%s) = %s", hx(0, a, N), hx(1, c, N));
#ifdef COMPRESS
    if (!zero) {
        mulmod(e, Rm, Rm); mc_context("fpinv_mont_bingcd(%s)", hx(0, a, N)); alarm(60);
        fpcopy(a, c); fpinv_mont_bingcd(c); mulmod(w, m, c); CK(LT2P(c) && !mpn_cmp(w, e, N), "fpinv_mont_bingcd(%s) = %s", hx(0, a, N), hx(1, c, N));
    }
#endif
    mc_n_state++; mc_n_trans += 3;
}
static void inv2(const fe x, const fe y)
{
    f2elm_t a, c; fpcopy(x, a[0]); fpcopy(y, a[1]); mp_limb_t m0[N], m1[N], w[N], t[N], R2[N]; mod(m0, x, N); mod(m1, y, N); mulmod(R2, Rm, Rm);
    bool zero = mpn_zero_p(m0, N) && mpn_zero_p(m1, N);
    for (int k = 0; k < 2; ++k) {
        fp2copy(a, c);
        mc_context("fp2inv (%s,%s)", hx(0, x, N), hx(1, y, N)); alarm(60);
        if (!k) fp2inv_mont(c);
        else {
#ifdef COMPRESS
            if (zero) break;
            fp2inv_mont_bingcd(c);
#else
            break;
#endif
        }
        mp_limb_t c0[N], c1[N]; mod(c0, c[0], N); mod(c1, c[1], N);
        mulmod(w, m0, c0); mulmod(t, m1, c1); submod(w, w, t); bool ok = zero ? mpn_zero_p(c0, N) && mpn_zero_p(c1, N) : !mpn_cmp(w, R2, N);
        mulmod(w, m0, c1); mulmod(t, m1, c0); addmod(w, w, t);
        CK(ok && mpn_zero_p(w, N) && LT2P(c[0]) && LT2P(c[1]), "%s(%s,%s)", k ? "fp2inv_mont_bingcd" : "fp2inv_mont", hx(0, x, N), hx(1, y, N));
    }
    // the square test agrees with Euler's criterion on the norm
    fe s; mp_limb_t n[N], e[N]; mulmod(n, m0, m0); mulmod(t, m1, m1); addmod(n, n, t); mulmod(n, n, Rinv); mulmod(n, n, Rinv);
    mpn_sub_1(e, P, N, 1); mpn_rshift(e, e, N, 1); powmod(w, n, e); mpn_sub_1(e, P, N, 1);
    CK((is_sqr_fp2(a, s) == 1) == (mpn_cmp(w, e, N) != 0), "is_sqr_fp2(%s,%s)", hx(0, x, N), hx(1, y, N));
    mc_n_state++; mc_n_trans += 2;
}

int main(int argc, char **argv)
{
    mc_start();
    const char *op = argv[1]; sh = atoi(argv[2]); nsh = atoi(argv[3]); thor = atoi(argv[4]);
    // the prime from its definition, not from the table in the source
    mpz_t p, t, r; mpz_inits(p, t, r, NULL); mpz_ui_pow_ui(p, 3, OBOB_EXPON); mpz_mul_2exp(p, p, OALICE_BITS); mpz_sub_ui(p, p, 1);
    static const int E2[] = { 216, 250, 305, 372 }, E3[] = { 137, 159, 192, 239 }, BB[] = { 434, 503, 610, 751 };
    for (int i = 0; i < 4; ++i) if (BB[i] == NBITS_FIELD) { mpz_ui_pow_ui(p, 3, E3[i]); mpz_mul_2exp(p, p, E2[i]); mpz_sub_ui(p, p, 1); }
    mpz_export(P, NULL, -1, 8, 0, 0, p); mpn_lshift(P2, P, N, 1); mpn_lshift(P4, P, N, 2);
    mpz_setbit(r, 64*N); mpz_mod(t, r, p); mpz_export(Rm, NULL, -1, 8, 0, 0, t); mpz_invert(t, r, p); mpz_export(Rinv, NULL, -1, 8, 0, 0, t);
    mp_limb_t A2[] = { 0, ~(mp_limb_t)0 }, A4[] = { 0, 1, ~(mp_limb_t)0, 0x8000000000000000ull };
    set S = { 0 };
    if (!strcmp(op, "lin")) {
        boundary(&S, 4, 8, P2); words(&S, A2, 2, N > 8 ? 4 : 99, P2); uniq(&S);
        for (int i = 0; i < S.n; ++i) { if (mine()) lin1(S.v[i]); }
        for (int i = 0; i < S.n; ++i) if (mine()) for (int j = 0; j < S.n; ++j) lin2(S.v[i], S.v[j]);
        S.n = 0; boundary(&S, 16, 1, P2); words(&S, A4, 4, N > 8 ? 3 : thor ? 99 : 4, P2); uniq(&S);
        for (int i = 0; i < S.n; ++i) if (mine()) lin1(S.v[i]);
    } else if (!strcmp(op, "mul")) {
        boundary(&S, 2, thor ? 4 : 16, P2); words(&S, A2, 2, thor ? 4 : N > 8 ? 2 : 3, P2); uniq(&S);
        int base = S.n;
        for (int i = 0; i < base; ++i) if (mine()) for (int j = 0; j < base; ++j) mul2(S.v[i], S.v[j]);
        // products with a prescribed result: b = t*R/a for boundary t
        set T = { 0 }; boundary(&T, 3, 32, P); words(&T, A2, 2, 2, P); uniq(&T);
        for (int i = 0; i < 6; ++i) {
            fe a, ai, b; gen(a, 50+i); if (i == 1) mpn_copyi(a, Rm, N); if (i == 2) { mpn_zero(a, N); a[0] = 3; }
            mpz_import(t, N, -1, 8, 0, 0, a); mpz_invert(t, t, p); mpn_zero(ai, N); mpz_export(ai, NULL, -1, 8, 0, 0, t); mulmod(ai, ai, Rm);
            for (int j = 0; j < T.n; ++j) if (mine()) {
                mulmod(b, T.v[j], ai); fe a2, b2; mpn_add_n(a2, a, P, N); mpn_add_n(b2, b, P, N);
                mul2(a, b); mul2(b, a); mul2(a2, b); mul2(a, b2); mul2(a2, b2);
            }
        }
    } else if (!strcmp(op, "prod")) {
#if defined(_GENERIC_) || NBITS_FIELD == 751
        mp_limb_t lim[N]; memset(lim, 0xFF, sizeof lim);
        boundary(&S, 2, 16, P4); words(&S, A2, 2, N > 8 ? 2 : 3, P4); words(&S, A4, 4, 1, P4); uniq(&S);
        for (int i = 0; i < S.n; ++i) if (mine()) for (int j = 0; j < S.n; ++j) mulp(S.v[i], S.v[j]);
        set M = { 0 }; words(&M, A2, 2, thor ? 99 : 3, lim); words(&M, A4, 4, 2, lim); 
        fe q; for (int i = 0; i < 8; ++i) { gen(q, 80+i); add_lt(&M, q, lim); }
        uniq(&M);
        set X = { 0 }; boundary(&X, 2, 64, P); words(&X, A2, 2, 2, P); uniq(&X);
        for (int i = 0; i < M.n; ++i) if (mine()) for (int j = 0; j < X.n; ++j) rdc(M.v[i], X.v[j]);
        rdc_cols();
#endif
    } else if (!strcmp(op, "inv")) {
        boundary(&S, thor ? 16 : 2, thor ? 8 : 64, P2); words(&S, A2, 2, thor ? 3 : 1, P2); uniq(&S);
        for (int i = 0; i < S.n; ++i) if (mine()) inv1(S.v[i]);
        S.n = 0; boundary(&S, 1, 64, P2); uniq(&S); int st = thor ? 1 : S.n > 40 ? S.n/20 : 1;
        fe k[12]; int nk = 0; mpn_zero(k[0], N); nk = 1; mpn_copyi(k[nk++], P, N); mpn_sub_1(k[nk++], P, N, 1); mpn_sub_1(k[nk++], P2, N, 1); mpn_copyi(k[nk++], Rm, N); gen(k[nk++], 5);
        for (int i = 0; i < S.n; i += st) for (int j = 0; j < nk; ++j) if (mine()) { inv2(S.v[i], k[j]); inv2(k[j], S.v[i]); }
    } else if (!strcmp(op, "fp2")) {
        // one element: all pairs; two elements: all quadruples over a small set; up to 4p, as the curve code uses it
        boundary(&S, 1, 64, P2); words(&S, A2, 2, 1, P2); uniq(&S);
        for (int i = 0; i < S.n; ++i) if (mine()) for (int j = 0; j < S.n; ++j) fp2one(S.v[i], S.v[j], true);
        S.n = 0; boundary(&S, 1, 64, P4); words(&S, A2, 2, 1, P4); uniq(&S);
        for (int i = 0; i < S.n; i += 2) if (mine()) for (int j = 0; j < S.n; ++j) fp2one(S.v[i], S.v[j], false);
        fe k[48]; int nk = 0, n2; fe z = { 0 };
        mpn_copyi(k[nk++], z, N); mpn_add_1(k[nk++], z, N, 1); mpn_copyi(k[nk++], Rm, N);
        mpn_sub_1(k[nk++], P, N, 1); mpn_copyi(k[nk++], P, N); mpn_add_1(k[nk++], P, N, 1); mpn_sub_1(k[nk++], P2, N, 1); gen(k[nk++], 7); mpn_add_n(k[nk], k[nk-1], P, N); nk++;
        mpn_rshift(k[nk++], P, N, 1); for (int i = 0; i < N; ++i) k[nk][i] = i == N-1 ? P2[i]-1 : ~(mp_limb_t)0; nk++; for (int i = 0; i < N; ++i) k[nk][i] = i == N-1 ? P[N-1] : 0; nk++;
        if (thor) { for (int i = 0; i < N; ++i) k[nk][i] = i == N-1 ? P[i] : i & 1 ? ~(mp_limb_t)0 : 0; nk++; for (int i = 0; i < N; ++i) k[nk][i] = i == N-1 ? P2[i]-1 : i & 1 ? 0 : ~(mp_limb_t)0; nk++; mpn_sub_n(k[nk], P, Rm, N); nk++; mpn_zero(k[nk], N); k[nk][N-1] = 1; nk++; mpn_sub_1(k[nk++], P2, N, 2); gen(k[nk++], 8); }
        n2 = nk; mpn_copyi(k[nk++], P2, N); mpn_sub_1(k[nk++], P4, N, 1); mpn_add_n(k[nk], P2, P, N); nk++;
        for (int i = 0; i < nk; ++i) for (int j = 0; j < nk; ++j) if (mine()) for (int x = 0; x < nk; ++x) for (int y = 0; y < nk; ++y) {
            f2elm_t a, b; fpcopy(k[i], a[0]); fpcopy(k[j], a[1]); fpcopy(k[x], b[0]); fpcopy(k[y], b[1]);
            fp2two(a, b, i < n2 && j < n2 && x < n2 && y < n2, (i+j+x+y) % 4 == 0);
        }
    } else return 3;
    mc_n_nontriv = mc_n_state;
    return mc_finish();
}
