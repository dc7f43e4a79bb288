// Base field of the reduced instances.  Like in the real backends, sums and differences live in
// [0, 2p] and a Montgomery reduction returns a value in [0, p(1+eps)), eps = (operand bound)^2 p/2^R,
// which is small but not zero for every real parameter set: residues just above zero have two
// possible representatives.  Which one a reduction returns is chosen by mc_rep_mode, so that code
// relying on a particular one is exposed:
//   0 = the one below p, 1 = the one above, 2 = depends on the operand.
#include "tiny_internal.h"
#include "internal.h"
#ifdef __clang__
#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)   // C20 traces the library, not this stand-in
#endif
unsigned mc_rep_mode = 0;

static inline digit_t pick(digit_t t, digit_t key)
{   // t in [0,p); eps = 1/32
    if (mc_rep_mode == 0 || t > MC_P / 32) return t;
    if (mc_rep_mode == 1) return t + MC_P;
    key *= 0x9E3779B97F4A7C15ull;
    return (key >> 63) ? t + MC_P : t;
}
void mp_sub_p2TINY(const digit_t* a, const digit_t* b, digit_t* c) { c[0] = a[0] - b[0] + 2*(digit_t)MC_P; }
void mp_sub_p4TINY(const digit_t* a, const digit_t* b, digit_t* c) { c[0] = a[0] - b[0] + 4*(digit_t)MC_P; }
void fpaddTINY(const digit_t* a, const digit_t* b, digit_t* c) { digit_t t = a[0] + b[0]; c[0] = t >= 2*MC_P ? t - 2*MC_P : t; }
void fpsubTINY(const digit_t* a, const digit_t* b, digit_t* c) { digit_t t = a[0] - b[0]; c[0] = a[0] < b[0] ? t + 2*MC_P : t; }
void fpnegTINY(digit_t* a) { a[0] = 2*(digit_t)MC_P - a[0]; }
void fpdiv2TINY(const digit_t* a, digit_t* c) { c[0] = (a[0] + (a[0] & 1 ? MC_P : 0)) >> 1; }
void fpcorrectionTINY(digit_t* a) { if (a[0] >= MC_P) a[0] -= MC_P; }
void digit_x_digit(const digit_t a, const digit_t b, digit_t* c) { unsigned __int128 t = (unsigned __int128) a * b; c[0] = (digit_t) t; c[1] = (digit_t)(t >> 64); }
void mp_mul(const digit_t* a, const digit_t* b, digit_t* c, const unsigned int nwords) { (void) nwords; digit_x_digit(a[0], b[0], c); }
void rdc_mont(digit_t* a, digit_t* c)
{   // c = a / 2^64 mod p
    digit_t hi = a[1] % MC_P, lo = a[0] % MC_P;
    digit_t v = (hi + lo * MC_RINV) % MC_P;
    c[0] = a[0] | a[1] ? pick(v, a[0] ^ (a[1] << 7)) : 0;
}
void fpinv_chain_model(digit_t* a)
{   // a^((p-3)/4)
    digit_t r[1] = { MC_R1 }, b[1] = { a[0] };
    for (unsigned long e = (MC_P - 3) / 4; e; e >>= 1) {
        if (e & 1) fpmul_montTINY(r, b, r);
        fpsqr_montTINY(b, b);
    }
    a[0] = r[0];
}
#ifdef __clang__
#pragma clang attribute pop
#endif
