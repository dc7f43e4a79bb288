// compact Keccak-f[1600] / SHAKE, written from FIPS 202
#ifndef REFKECCAK_H
#define REFKECCAK_H
#include <stdint.h>
#include <string.h>
static void rk_f(uint64_t A[25])
{
    unsigned char lfsr = 1;
    for (int rnd = 0; rnd < 24; ++rnd) {
        uint64_t C[5], D[5], B[25];
        for (int x = 0; x < 5; ++x) C[x] = A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20];
        for (int x = 0; x < 5; ++x) D[x] = C[(x+4)%5] ^ ((C[(x+1)%5] << 1) | (C[(x+1)%5] >> 63));
        for (int i = 0; i < 25; ++i) A[i] ^= D[i%5];
        B[0] = A[0];
        int x = 1, y = 0;
        for (int t = 0; t < 24; ++t) {
            int r = ((t+1)*(t+2)/2) % 64, nx = y, ny = (2*x+3*y) % 5;
            uint64_t v = A[x+5*y];
            B[nx+5*ny] = r ? (v << r) | (v >> (64-r)) : v;
            x = nx; y = ny;
        }
        for (int yy = 0; yy < 5; ++yy) for (int xx = 0; xx < 5; ++xx)
            A[xx+5*yy] = B[xx+5*yy] ^ (~B[(xx+1)%5+5*yy] & B[(xx+2)%5+5*yy]);
        for (int j = 0; j <= 6; ++j) {
            if (lfsr & 1) A[0] ^= 1ull << ((1 << j) - 1);
            lfsr = (lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0);
        }
    }
}
typedef struct { uint64_t A[25]; unsigned pos, rate; } RK;
static void rk_init(RK *k, unsigned rate) { memset(k, 0, sizeof *k); k->rate = rate; }
static void rk_absorb(RK *k, const void *in, size_t n)
{
    const unsigned char *p = in;
    while (n--) { k->A[k->pos/8] ^= (uint64_t) *p++ << 8*(k->pos%8); if (++k->pos == k->rate) { rk_f(k->A); k->pos = 0; } }
}
static void rk_finish(RK *k) { k->A[k->pos/8] ^= (uint64_t) 0x1F << 8*(k->pos%8); k->A[(k->rate-1)/8] ^= (uint64_t) 0x80 << 8*((k->rate-1)%8); rk_f(k->A); k->pos = 0; }
static void rk_squeeze(RK *k, void *out, size_t n)
{
    unsigned char *p = out;
    while (n--) { if (k->pos == k->rate) { rk_f(k->A); k->pos = 0; } *p++ = k->A[k->pos/8] >> 8*(k->pos%8); ++k->pos; }
}
static void rk_shake256(void *out, size_t n, const void *in, size_t m) { RK k; rk_init(&k, 136); rk_absorb(&k, in, m); rk_finish(&k); rk_squeeze(&k, out, n); }
#endif
