// Executor for the proof system over the real primes (few repetitions, real chain steps).  Reads
// commands from stdin and prints what the library did; the driver (ref/poikworker.py) compares.
//   G curve seed pos x : walk from the curve, the random byte number pos xored with x (pos < 0: none)
//                   -> "G rc E_0 .. E_W P_0 .. P_{W-1} bytes", bytes: number of random bytes drawn
//   P seed cut s2 : proof of the last walk, requests from number cut on from another stream (cut < 0: none)
//                   -> "P proof... | request request ..."
//   S E_0 .. P_.. : sets the walk            -> "S"
//   V proof...    : verification             -> "V verdict"
// A proof is E0 E1 and, for each repetition, tag followed by its fields, in hexadecimal.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "poik.h"
static uint64_t st, st2; static long cut = -1, nreq, pos = -1, nbyte; static int fx; static int logging; static char *lg; static size_t ln, lc;
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15u; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u; z = (z ^ (z >> 27)) * 0x94d049bb133111ebu; return z ^ (z >> 31); }
int randombytes(unsigned char *b, unsigned long long n)
{
    if (nreq++ == cut) st = st2;
    for (unsigned long long i = 0; i < n; ++i) { b[i] = mix(st++) >> 11; if (nbyte++ == pos) b[i] ^= fx; }
    if (logging) {
        while (ln + 2*n + 2 > lc) lg = realloc(lg, lc = 2*lc + 4096 + 2*n);
        lg[ln++] = ' '; for (unsigned long long i = 0; i < n; ++i) ln += sprintf(lg + ln, "%02x", b[i]);
    }
    return 0;
}
static char *tok; static char *next(void) { char *t = tok ? strtok(tok, " \n") : strtok(NULL, " \n"); tok = NULL; if (!t) exit(3); return t; }
static void rd(void *o, size_t n) { char *s = next(); if (strlen(s) != 2*n) exit(3); for (size_t i = 0; i < n; ++i) { unsigned v; if (sscanf(s + 2*i, "%2x", &v) != 1) exit(3); ((unsigned char *) o)[i] = v; } }
static void wr(const void *o, size_t n) { putchar(' '); for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *) o)[i]); }
#define BOTH(F, p) \
    F(&(p)->E0, sizeof (p)->E0); F(&(p)->E1, sizeof (p)->E1); \
    for (size_t i = 0; i < POIK_REPS; ++i) { struct response *r = &(p)->resp[i]; TAG_##F(r); \
        switch ((int) r->tag) { \
        case -1: F(r->left.r2, HIDE_BYTES); F(r->left.h3, HASH_BYTES); for (size_t k = 0; k < POIK_HEIGHT; ++k) F(&r->left.chain.x[k], sizeof(packed_fp2)); break; \
        case 0: F(r->bottom.r2, HIDE_BYTES); F(r->bottom.r3, HIDE_BYTES); F(&r->bottom.E2, sizeof(packed_fp2)); for (size_t k = 0; k < POIK_WIDTH; ++k) F(&r->bottom.chain.x[k], sizeof(packed_fp2)); break; \
        case 1: F(r->right.h2, HASH_BYTES); F(r->right.r3, HIDE_BYTES); for (size_t k = 0; k < POIK_HEIGHT; ++k) F(&r->right.chain.x[k], sizeof(packed_fp2)); break; \
        default: break; } }
#define TAG_rd(r) ((r)->tag = atoi(next()))
#define TAG_wr(r) printf(" %d", (int) (r)->tag)
static char *line; static size_t cap;
int main(void)
{
    struct proof *p = calloc(1, sizeof *p); struct secret *s = calloc(1, sizeof *s); packed_fp2 E;
    printf("I %d %d %d %d %d\n", POIK_REPS, POIK_WIDTH, POIK_HEIGHT, HASH_BYTES, HIDE_BYTES); fflush(stdout);
    while (getline(&line, &cap, stdin) > 0) {
        tok = line; char c = *next();
        switch (c) {
        case 'G': rd(&E, sizeof E); st = strtoull(next(), NULL, 10) * 1000003; pos = atol(next()); fx = atoi(next()); nbyte = 0; memset(s, 0, sizeof *s);
            printf("G %d", Generate(&E, s)); pos = -1; for (size_t i = 0; i <= POIK_WIDTH; ++i) wr(&s->E[i], sizeof E); for (size_t i = 0; i < POIK_WIDTH; ++i) wr(&s->P[i], sizeof E); printf(" %ld", nbyte); break;
        case 'S': for (size_t i = 0; i <= POIK_WIDTH; ++i) rd(&s->E[i], sizeof E); for (size_t i = 0; i < POIK_WIDTH; ++i) rd(&s->P[i], sizeof E); printf("S"); break;
        case 'P': st = strtoull(next(), NULL, 10) * 1000003 + 7777; cut = atol(next()); st2 = strtoull(next(), NULL, 10) * 1000003 + 99999999999; nreq = 0; ln = 0; logging = 1; memset(p, 0xA5, sizeof *p); Prove(s, p); logging = 0; cut = -1;
            printf("P"); BOTH(wr, p) printf(" |"); if (ln) fwrite(lg, 1, ln, stdout); break;
        case 'V': memset(p, 0x5A, sizeof *p); BOTH(rd, p) st = 424242; printf("V %d", Verify(p)); break;
        default: return 3;
        }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
