// Reduced-parameter field: p = 2^E2 * 3^E3 - 1 in one machine word.  The types and constants have
// the shape of P434_internal.h; the base-field functions come from fp_tiny.c.
#ifndef TINY_INTERNAL_H
#define TINY_INTERNAL_H
#include "config.h"
#include "tiny_params.h"        // generated: MC_P, MC_E2, MC_E3, strategies, bases

#define NWORDS_FIELD            1
#define NBITS_FIELD             MC_NBITS
#define MAXBITS_FIELD           64
#define MAXWORDS_FIELD          1
#define NWORDS64_FIELD          1
#define NBITS_ORDER             64
#define NWORDS_ORDER            1
#define NWORDS64_ORDER          1
#define MAXBITS_ORDER           NBITS_ORDER
#define ALICE                   0
#define BOB                     1
#define OALICE_BITS             MC_E2
#define OBOB_BITS               MC_OBOB_BITS
#define OBOB_EXPON              MC_E3
#define MASK_ALICE              MC_MASK_ALICE
#define MASK_BOB                MC_MASK_BOB
#define PRIME                   pTINY
#define PARAM_A                 6
#define PARAM_C                 1
#define MAX_INT_POINTS_ALICE    8
#define MAX_INT_POINTS_BOB      8
#define MAX_Alice               (MC_E2/2)
#define MAX_Bob                 MC_E3
#define MSG_BYTES               16
#define SECRETKEY_A_BYTES       ((OALICE_BITS + 7) / 8)
#define SECRETKEY_B_BYTES       ((OBOB_BITS - 1 + 7) / 8)
#define FP2_ENCODED_BYTES       2*((NBITS_FIELD + 7) / 8)

typedef digit_t felm_t[NWORDS_FIELD];
typedef digit_t dfelm_t[2*NWORDS_FIELD];
typedef felm_t  f2elm_t[2];
typedef struct { f2elm_t X; f2elm_t Z; } point_proj;
typedef point_proj point_proj_t[1];

#define T(n) n##TINY
void mp_sub_p2TINY(const digit_t*, const digit_t*, digit_t*);
void mp_sub_p4TINY(const digit_t*, const digit_t*, digit_t*);
void fpcopyTINY(const digit_t*, digit_t*);
void fpzeroTINY(digit_t*);
bool fpequal_non_constant_timeTINY(const digit_t*, const digit_t*);
void fpaddTINY(const digit_t*, const digit_t*, digit_t*);
void fpsubTINY(const digit_t*, const digit_t*, digit_t*);
void fpnegTINY(digit_t*);
void fpdiv2TINY(const digit_t*, digit_t*);
void fpcorrectionTINY(digit_t*);
void fpmul_montTINY(const digit_t*, const digit_t*, digit_t*);
void fpmulTINY(const digit_t*, const digit_t*, digit_t*);
void fpsqr_montTINY(const digit_t*, digit_t*);
void fpinv_montTINY(digit_t*);
void fpinv_mont_bingcdTINY(digit_t*);
void fpinv_chain_montTINY(digit_t*);
void fpinv_chain_model(digit_t*);
void fp2copyTINY(const f2elm_t, f2elm_t);
void fp2zeroTINY(f2elm_t);
void fp2negTINY(f2elm_t);
void fp2addTINY(const f2elm_t, const f2elm_t, f2elm_t);
void fp2subTINY(const f2elm_t, const f2elm_t, f2elm_t);
void fp2div2TINY(const f2elm_t, f2elm_t);
void fp2correctionTINY(f2elm_t);
void fp2sqr_montTINY(const f2elm_t, f2elm_t);
void fp2mul_montTINY(const f2elm_t, const f2elm_t, f2elm_t);
void fp2inv_montTINY(f2elm_t);
void fp2inv_mont_bingcdTINY(f2elm_t);
#endif
