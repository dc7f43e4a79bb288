// The real fpx.c, ec_isogeny.c, sidh.c, sike.c and poik.c instantiated over a reduced field, the
// way P434.c / P434_poik.c instantiate them over p434.
#include "tiny_api.h"
#include "tiny_internal.h"
#include "internal.h"

const uint64_t pTINY[1]             = { MC_P };
const uint64_t Alice_order[1]       = { 1ull << MC_E2 };
const uint64_t Bob_order[1]         = { MC_3E3 };
const uint64_t A_gen[6]             = { MC_A_GEN };
const uint64_t B_gen[6]             = { MC_B_GEN };
const uint64_t Montgomery_R2[1]     = { MC_R2 };
const uint64_t Montgomery_one[1]    = { MC_R1 };
const unsigned int strat_Alice[]    = { MC_STRAT_A };
const unsigned int strat_Bob[]      = { MC_STRAT_B };

#define fpcopy                        fpcopyTINY
#define fpzero                        fpzeroTINY
#define fpadd                         fpaddTINY
#define fpsub                         fpsubTINY
#define fpneg                         fpnegTINY
#define fpdiv2                        fpdiv2TINY
#define fpcorrection                  fpcorrectionTINY
#define fpmul                         fpmulTINY
#define fpmul_mont                    fpmul_montTINY
#define fpsqr_mont                    fpsqr_montTINY
#define fpinv_mont                    fpinv_montTINY
#define fpinv_chain_mont              fpinv_chain_montTINY
#define fpinv_mont_bingcd             fpinv_mont_bingcdTINY
#define fp2copy                       fp2copyTINY
#define fp2zero                       fp2zeroTINY
#define fp2add                        fp2addTINY
#define fp2sub                        fp2subTINY
#define mp_sub_p2                     mp_sub_p2TINY
#define mp_sub_p4                     mp_sub_p4TINY
#define sub_p4                        mp_sub_p4
#define fp2neg                        fp2negTINY
#define fp2div2                       fp2div2TINY
#define fp2correction                 fp2correctionTINY
#define fp2mul_mont                   fp2mul_montTINY
#define fp2sqr_mont                   fp2sqr_montTINY
#define fp2inv_mont                   fp2inv_montTINY
#define fp2inv_mont_bingcd            fp2inv_mont_bingcdTINY
#define fpequal_non_constant_time     fpequal_non_constant_timeTINY
#define crypto_kem_keypair            crypto_kem_keypair_TINY
#define crypto_kem_enc                crypto_kem_enc_TINY
#define crypto_kem_dec                crypto_kem_dec_TINY
#define random_mod_order_A            random_mod_order_A_TINY
#define random_mod_order_B            random_mod_order_B_TINY
#define EphemeralKeyGeneration_A      EphemeralKeyGeneration_A_TINY
#define EphemeralKeyGeneration_B      EphemeralKeyGeneration_B_TINY
#define EphemeralSecretAgreement_A    EphemeralSecretAgreement_A_TINY
#define EphemeralSecretAgreement_B    EphemeralSecretAgreement_B_TINY

#include "fpx.c"
#include "ec_isogeny.c"
#include "sidh.c"
#include "sike.c"
#ifdef MC_POIK
#include "poik.c"
#endif
