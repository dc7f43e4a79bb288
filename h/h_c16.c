// C16: every input length x output length up to the bound, several contents, one-shot and incremental.
#include "mc.h"
#include "refkeccak.h"
#include "sha3/fips202.h"
static unsigned char in[6000], o1[6000], o2[6000];
static void fill(int pat, size_t n)
{
    for (size_t i = 0; i < n; ++i) in[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (unsigned char)(i * 167 + 13) : (unsigned char)(mc_mix(i + 1000 * pat) >> 20);
}
static void one(int which, size_t n, size_t m, int pat)
{
    memset(o1, 0xA5, m + 64);
    mc_context("shake%d in %zu out %zu pattern %d", which, n, m, pat);
    if (which == 128) shake128(o1, m, in, n); else shake256(o1, m, in, n);
    RK k; rk_init(&k, which == 128 ? 168 : 136); rk_absorb(&k, in, n); rk_finish(&k); rk_squeeze(&k, o2, m);
    ++mc_n_exec; ++mc_n_trans;
    if (memcmp(o1, o2, m)) mc_violation("shake%d: input of %zu bytes (pattern %d), output of %zu bytes differs from the standard", which, n, pat, m);
    for (int i = 0; i < 64; ++i) if (o1[m+i] != 0xA5) { mc_violation("shake%d writes beyond the requested %zu bytes", which, m); break; }
    if (n && m) ++mc_n_nontriv;
}
int main(int argc, char **argv)
{
    mc_start(); alarm(850);
    size_t sh = atoi(argv[1]), ns = atoi(argv[2]), N = strtoul(argv[3], 0, 0), M = strtoul(argv[4], 0, 0);
    for (int which = 128; which <= 256; which += 128) {
        size_t rate = which == 128 ? 168 : 136;
        for (size_t n = 0; n <= N; ++n) {
            if (n % ns != sh) continue;
            ++mc_n_state;
            for (int pat = 0; pat < 4; ++pat) {
                fill(pat, n);
                if (pat == 2) for (size_t m = 0; m <= M; ++m) one(which, n, m, pat);
                else { size_t ms[] = { 1, 16, 32, 64, rate-1, rate, rate+1, 2*rate, 2*rate+3 }; for (int q = 0; q < 9; ++q) one(which, n, ms[q], pat); }
            }
            // single-bit inputs at every position (n <= 400)
            if (n <= 400) for (size_t b = 0; b < 8*n; b += 5) { memset(in, 0, n); in[b/8] = 1 << (b%8); one(which, n, 40, 100); }
            // incremental interface: absorb, then squeeze in every split into at most three calls
            fill(2, n);
            RK k; rk_init(&k, rate); rk_absorb(&k, in, n); rk_finish(&k); rk_squeeze(&k, o2, 6*rate);
            for (int a = 0; a <= 3; ++a) for (int b = 0; b + a <= 5; ++b) {
                uint64_t s[25] = {0}; memset(o1, 0x77, 6*rate);
                mc_context("incremental shake%d in %zu split %d %d", which, n, a, b);
                if (which == 128) { shake128_absorb(s, in, n); shake128_squeezeblocks(o1, a, s); shake128_squeezeblocks(o1 + a*rate, b, s); shake128_squeezeblocks(o1 + (a+b)*rate, 1, s); }
                else { shake256_absorb(s, in, n); shake256_squeezeblocks(o1, a, s); shake256_squeezeblocks(o1 + a*rate, b, s); shake256_squeezeblocks(o1 + (a+b)*rate, 1, s); }
                ++mc_n_exec; mc_n_trans += 4;
                if (memcmp(o1, o2, (a+b+1)*rate)) mc_violation("incremental shake%d: input of %zu bytes, squeezes of %d, %d and 1 blocks differ from the standard", which, n, a, b);
            }
        }
    }
    // large lengths as used for the challenge of the biggest parameter set
    for (size_t n = 4000 + sh; n <= 5800; n += 97 * ns) { fill(2, n); one(256, n, 136, 2); one(128, n, 168, 2); }
    if (!sh) mc_sample("all input lengths 0..%zu x all output lengths 0..%zu", N, M);
    return mc_finish();
}
