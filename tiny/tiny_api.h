#ifndef TINY_API_H
#define TINY_API_H
#include "tiny_params.h"
#define CRYPTO_SECRETKEYBYTES   (16 + MC_SKB_BYTES + 6*MC_FP_BYTES)
#define CRYPTO_PUBLICKEYBYTES   (6*MC_FP_BYTES)
#define CRYPTO_BYTES            16
#define CRYPTO_CIPHERTEXTBYTES  (CRYPTO_PUBLICKEYBYTES + 16)
#define CRYPTO_ALGNAME          "SIKEtiny"
int crypto_kem_keypair_TINY(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc_TINY(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec_TINY(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#define SIDH_SECRETKEYBYTES_A   MC_SKA_BYTES
#define SIDH_SECRETKEYBYTES_B   MC_SKB_BYTES
#define SIDH_PUBLICKEYBYTES     (6*MC_FP_BYTES)
#define SIDH_BYTES              (2*MC_FP_BYTES)
int random_mod_order_A_TINY(unsigned char* random_digits);
int random_mod_order_B_TINY(unsigned char* random_digits);
int EphemeralKeyGeneration_A_TINY(const unsigned char* PrivateKeyA, unsigned char* PublicKeyA);
int EphemeralKeyGeneration_B_TINY(const unsigned char* PrivateKeyB, unsigned char* PublicKeyB);
int EphemeralSecretAgreement_A_TINY(const unsigned char* PrivateKeyA, const unsigned char* PublicKeyB, unsigned char* SharedSecretA);
int EphemeralSecretAgreement_B_TINY(const unsigned char* PrivateKeyB, const unsigned char* PublicKeyA, unsigned char* SharedSecretB);
#endif
