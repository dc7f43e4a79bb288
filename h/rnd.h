// Controlled random source of the reduced instances.  The tree under test sees randombytes(); every
// call is numbered, and so is every field word (requests of 8 or 16 bytes are field words and get
// residues below p; all other requests get bytes).  Everything follows a fixed stream determined by
// rnd_seed, except for the words and calls a harness overrides.
#ifndef RND_H
#define RND_H
#include "mc.h"
#include "tiny_params.h"
typedef struct { unsigned char data[160]; unsigned len; unsigned word0; } RndCall;
#ifndef RND_LOG_MAX
#define RND_LOG_MAX 4096
#endif
static RndCall rnd_log[RND_LOG_MAX];
static unsigned rnd_n, rnd_w;          // calls / field words so far
static uint64_t rnd_seed;
static int rnd_log_on;
static unsigned long rnd_fail_at = -1ul;    // the call with this number reports failure
static int rnd_fail_forever;
#define RND_PLAN_MAX 512
static uint64_t rnd_plan[RND_PLAN_MAX]; static unsigned char rnd_planned[RND_PLAN_MAX]; static unsigned rnd_plan_n;   // overrides by field-word number
static unsigned rnd_ov_n, rnd_ov_idx[4]; static unsigned char rnd_ov_dat[4][160]; static unsigned rnd_ov_len[4];   // overrides by call number
static unsigned rnd_ovw_n, rnd_ovw_idx[4]; static uint64_t rnd_ovw[4];
static void rnd_reset(uint64_t seed) { rnd_n = rnd_w = 0; rnd_seed = seed; rnd_ov_n = 0; rnd_ovw_n = 0; rnd_fail_at = -1ul; rnd_fail_forever = 0; memset(rnd_planned, 0, rnd_plan_n); rnd_plan_n = 0; }
static inline void rnd_plan_word(unsigned w, uint64_t v) { rnd_plan[w] = v; rnd_planned[w] = 1; if (w >= rnd_plan_n) rnd_plan_n = w + 1; }
static inline void rnd_override(unsigned idx, const void *d, unsigned len) { unsigned k = rnd_ov_n++; rnd_ov_idx[k] = idx; memcpy(rnd_ov_dat[k], d, len); rnd_ov_len[k] = len; }
static inline void rnd_override_word(unsigned w, uint64_t v) { unsigned k = rnd_ovw_n++; rnd_ovw_idx[k] = w; rnd_ovw[k] = v; }
static inline uint64_t rnd_stream_word(unsigned w) { return mc_mix(rnd_seed * 0x100000001b3ull + w) % MC_P; }
unsigned long mc_nonce_salt;
int randombytes(unsigned char *buf, unsigned long long len)
{
    unsigned idx = rnd_n++;
    if (idx == rnd_fail_at || (rnd_fail_forever && idx > rnd_fail_at)) return 1;
    if (rnd_log_on && idx < RND_LOG_MAX) rnd_log[idx].word0 = rnd_w;
    if (len == 8 || len == 16) {
        for (unsigned k = 0; k < len/8; ++k) {
            unsigned wi = rnd_w++;
            uint64_t w = rnd_stream_word(wi);
            if (wi < rnd_plan_n && rnd_planned[wi]) w = rnd_plan[wi];
            for (unsigned q = 0; q < rnd_ovw_n; ++q) if (rnd_ovw_idx[q] == wi) w = rnd_ovw[q];
            memcpy(buf + 8*k, &w, 8);
        }
    } else {
        uint64_t s = (rnd_seed ^ 0x5a5a) * 0x100000001b3ull + idx + (mc_nonce_salt << 40);
        for (unsigned long long k = 0; k < len; ++k) buf[k] = mc_mix(s * 1000 + k) >> 24;
    }
    for (unsigned k = 0; k < rnd_ov_n; ++k) if (rnd_ov_idx[k] == idx) memcpy(buf, rnd_ov_dat[k], rnd_ov_len[k] < len ? rnd_ov_len[k] : len);
    if (rnd_log_on && idx < RND_LOG_MAX) { rnd_log[idx].len = len > 160 ? 160 : len; memcpy(rnd_log[idx].data, buf, rnd_log[idx].len); }
    return 0;
}
#endif
