// Executor over the real parameter sets (-DBITS=434/503/610/751, -DCOMP for the compressed variants).
// Reads commands from stdin, one per line, and prints what the library returned; the driver compares.
//   S a b       : key generation and agreement on both sides      -> "S rc pkA pkB ssA ssB"
//   K r m       : key pair from the random bytes r, encapsulation of m, decapsulation
//                 -> "K rc pk sk ct ss ss'"
//   D ct sk     : decapsulation                                     -> "D rc ss"
//   V pk        : validation of a received key                      -> "V rc"
//   F           : failing random source, every request              -> "F op k rc" ...
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define C_(a,b) a##b
#define C(a,b) C_(a,b)
#ifdef COMP
#if BITS == 434
#include "P434/P434_compressed_api.h"
#elif BITS == 503
#include "P503/P503_compressed_api.h"
#elif BITS == 610
#include "P610/P610_compressed_api.h"
#else
#include "P751/P751_compressed_api.h"
#endif
#define KEM(x) C(C(C(crypto_kem_, x), _SIKEp), C(BITS, _compressed))
#define DH(x) C(C(C(Ephemeral, x), _SIDHp), C(BITS, _Compressed))
#else
#if BITS == 434
#include "P434/P434_api.h"
#elif BITS == 503
#include "P503/P503_api.h"
#elif BITS == 610
#include "P610/P610_api.h"
#else
#include "P751/P751_api.h"
#endif
#define KEM(x) C(C(crypto_kem_, x), C(_SIKEp, BITS))
#define DH(x) C(C(Ephemeral, x), C(_SIDHp, BITS))
int EphemeralSecretAgreement_B_extended(const unsigned char*, const unsigned char*, unsigned char*, unsigned int);
#endif
static unsigned char script[4096]; static size_t spos, slen; static long fail_at = -1, ncall;
int randombytes(unsigned char *b, unsigned long long n)
{
    if (ncall++ == fail_at) return 1;
    for (unsigned long long i = 0; i < n; ++i) b[i] = spos < slen ? script[spos++] : (unsigned char)(0x35 + 11 * i + ncall);
    return 0;
}
static char line[1 << 17];
static size_t unhex(const char *s, unsigned char *o, size_t max) { size_t n = 0; for (; s[0] && s[1] && s[0] != ' ' && s[0] != '\n' && n < max; s += 2) { unsigned v; if (sscanf(s, "%2x", &v) != 1) exit(3); o[n++] = v; } return n; }
static void hex(const unsigned char *p, size_t n) { putchar(' '); for (size_t i = 0; i < n; ++i) printf("%02x", p[i]); }
#define G 32
static unsigned char *guarded(size_t n) { unsigned char *p = malloc(n + 2*G); memset(p, 0xE7, n + 2*G); return p + G; }
static int intact(unsigned char *p, size_t n) { for (int i = 0; i < G; ++i) if (p[-1-i] != 0xE7 || p[n+i] != 0xE7) return 0; return 1; }
int main(void)
{
    unsigned char *pa = guarded(SIDH_PUBLICKEYBYTES), *pb = guarded(SIDH_PUBLICKEYBYTES), *sa = guarded(SIDH_BYTES), *sb = guarded(SIDH_BYTES);
    unsigned char *pk = guarded(CRYPTO_PUBLICKEYBYTES), *sk = guarded(CRYPTO_SECRETKEYBYTES), *ct = guarded(CRYPTO_CIPHERTEXTBYTES), *ss = guarded(CRYPTO_BYTES), *s2 = guarded(CRYPTO_BYTES);
    static unsigned char A[4096], B[4096];
    printf("I %d %d %d %d %d %d %d %d\n", CRYPTO_SECRETKEYBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES, SIDH_SECRETKEYBYTES_A, SIDH_SECRETKEYBYTES_B, SIDH_PUBLICKEYBYTES, SIDH_BYTES); fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char *a = line[1] == ' ' ? line + 2 : line + 1, *b = strchr(a, ' '); if (b) ++b;
        memset(A, 0, sizeof A); memset(B, 0, sizeof B);
        int rc = 0;
        switch (line[0]) {
        case 'S':
            unhex(a, A, SIDH_SECRETKEYBYTES_A); unhex(b, B, SIDH_SECRETKEYBYTES_B);
            rc |= DH(KeyGeneration_A)(A, pa); rc |= DH(KeyGeneration_B)(B, pb);
            rc |= DH(SecretAgreement_A)(A, pb, sa); rc |= DH(SecretAgreement_B)(B, pa, sb);
            printf("S %d", rc); hex(pa, SIDH_PUBLICKEYBYTES); hex(pb, SIDH_PUBLICKEYBYTES); hex(sa, SIDH_BYTES); hex(sb, SIDH_BYTES); break;
        case 'K':
            slen = unhex(a, script, sizeof script); spos = 0; memset(sk, 0, CRYPTO_SECRETKEYBYTES);
            rc |= KEM(keypair)(pk, sk);
            slen = unhex(b, script, sizeof script); spos = 0;
            rc |= KEM(enc)(ct, ss, pk); rc |= KEM(dec)(s2, ct, sk);
            printf("K %d", rc); hex(pk, CRYPTO_PUBLICKEYBYTES); hex(sk, CRYPTO_SECRETKEYBYTES); hex(ct, CRYPTO_CIPHERTEXTBYTES); hex(ss, CRYPTO_BYTES); hex(s2, CRYPTO_BYTES); break;
        case 'D':
            unhex(a, A, CRYPTO_CIPHERTEXTBYTES); unhex(b, B, CRYPTO_SECRETKEYBYTES);
            rc = KEM(dec)(s2, A, B); printf("D %d", rc); hex(s2, CRYPTO_BYTES); break;
#ifndef COMP
        case 'V':
            unhex(a, A, SIDH_PUBLICKEYBYTES); B[0] = 1; printf("V %d", EphemeralSecretAgreement_B_extended(B, A, sb, 1)); break;
#endif
        case 'F':
            for (int op = 0; op < 2; ++op) for (long k = 0; ; ++k) {
                slen = 0; fail_at = -1; if (op) KEM(keypair)(pk, sk);
                ncall = 0; fail_at = k; rc = op ? KEM(enc)(ct, ss, pk) : KEM(keypair)(pk, sk);
                fail_at = -1; if (ncall <= k) break;
                printf("F %s %ld %d\n", op ? "encapsulation" : "key-generation", k, rc);
            }
            printf("F end"); break;
        default: return 3;
        }
        if (!(intact(pa, SIDH_PUBLICKEYBYTES) && intact(pb, SIDH_PUBLICKEYBYTES) && intact(sa, SIDH_BYTES) && intact(sb, SIDH_BYTES) && intact(pk, CRYPTO_PUBLICKEYBYTES) && intact(sk, CRYPTO_SECRETKEYBYTES) && intact(ct, CRYPTO_CIPHERTEXTBYTES) && intact(ss, CRYPTO_BYTES) && intact(s2, CRYPTO_BYTES))) printf(" OVERRUN");
        printf("\n"); fflush(stdout);
    }
    return 0;
}
