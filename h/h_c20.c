// C20: what an operation on secrets executes and touches does not depend on the secrets.
// The library is compiled with -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores; the callbacks below fold
// the sequence of (program point | program point, address) into a trace.  For one operation and one choice of the public inputs,
// every secret of the alphabet (all of them over the reduced fields) must produce the trace of the first one.
//   h_c20 c20 sh ns n np     : whole operations, n secrets, np public inputs (0: the default)
//   h_c20 field sh ns thor   : the field routines over a boundary alphabet, traced the same way
// fpdiv2 is not among them: only public values are halved, and clang turns its mask into a branch.
//   h_c20 step sh ns thor    : the same, built without instrumentation and single-stepped by the processor: every instruction address,
//                              assembly and what the back end of the compiler made of selections included
#define _GNU_SOURCE
#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)
#include "mc.h"
#include <ucontext.h>
#ifdef BITS
#define C_(a,b) a##b
#define C(a,b) C_(a,b)
#if BITS == 434
#include "P434/P434_api.h"
#elif BITS == 503
#include "P503/P503_api.h"
#elif BITS == 610
#include "P610/P610_api.h"
#else
#include "P751/P751_api.h"
#endif
#define KEM(x) C(C(crypto_kem_, x), C(_SIKEp, BITS))
#define DH(x) C(C(Ephemeral, x), C(_SIDHp, BITS))
#define RMO(x) C(C(random_mod_order_, x), C(_SIDHp, BITS))
#else
#include "tiny_api.h"
#define KEM(x) crypto_kem_##x##_TINY
#define DH(x) Ephemeral##x##_TINY
#define RMO(x) random_mod_order_##x##_TINY
#endif
enum { SA = SIDH_SECRETKEYBYTES_A, SB = SIDH_SECRETKEYBYTES_B, PK = SIDH_PUBLICKEYBYTES, MSG = CRYPTO_CIPHERTEXTBYTES - CRYPTO_PUBLICKEYBYTES, CT = CRYPTO_CIPHERTEXTBYTES };
// ---- the trace
enum { CHUNK = 8192, MAXC = 1 << 20 };
typedef struct { uintptr_t pc, ad; } Ev;
static int on, addrs = 1; static unsigned long nev; static uint64_t hsh; static uint64_t *cur; static unsigned long cap = -1ul; static Ev *evs;
static inline void ev(uintptr_t pc, uintptr_t ad)
{
    if (!on) return;
    if (!addrs) { if (ad) return; }
    hsh = (hsh ^ pc) * 0x9E3779B97F4A7C15ull; hsh = (hsh ^ (hsh >> 29) ^ ad) * 0xBF58476D1CE4E5B9ull;
    if (nev / CHUNK == cap) evs[nev % CHUNK] = (Ev) { pc, ad };
    if (++nev % CHUNK == 0 && nev / CHUNK < MAXC) cur[nev / CHUNK - 1] = hsh;
}
#define RA (uintptr_t) __builtin_return_address(0)
void __sanitizer_cov_trace_pc(void) { ev(RA, 0); }
#define M(n) void __sanitizer_cov_load##n(void *a) { ev(RA, (uintptr_t) a); } void __sanitizer_cov_store##n(void *a) { ev(RA, (uintptr_t) a ^ 1ul << 63); }
M(1) M(2) M(4) M(8) M(16)
// library routines with data-dependent behaviour: a comparison stops at the first difference, the others touch what they are given
int memcmp(const void *a, const void *b, size_t n) { const volatile unsigned char *x = a, *y = b; for (size_t i = 0; i < n; ++i) { ev(RA, (uintptr_t) (x + i)); ev(RA, (uintptr_t) (y + i)); if (x[i] != y[i]) { ev(RA, 0); return x[i] - y[i]; } } ev(RA, 0); return 0; }
int bcmp(const void *a, const void *b, size_t n) { const volatile unsigned char *x = a, *y = b; for (size_t i = 0; i < n; ++i) { ev(RA, (uintptr_t) (x + i)); ev(RA, (uintptr_t) (y + i)); if (x[i] != y[i]) { ev(RA, 0); return 1; } } ev(RA, 0); return 0; }
void *memcpy(void *a, const void *b, size_t n) { ev(RA, (uintptr_t) a); ev(RA, (uintptr_t) b); ev(RA, n | 1ul << 62); volatile unsigned char *x = a; const volatile unsigned char *y = b; for (size_t i = 0; i < n; ++i) x[i] = y[i]; return a; }
void *memmove(void *a, const void *b, size_t n) { ev(RA, (uintptr_t) a); ev(RA, (uintptr_t) b); ev(RA, n | 1ul << 62); volatile unsigned char *x = a; const volatile unsigned char *y = b; if ((uintptr_t) a < (uintptr_t) b) for (size_t i = 0; i < n; ++i) x[i] = y[i]; else while (n--) x[n] = y[n]; return a; }
void *memset(void *a, int c, size_t n) { ev(RA, (uintptr_t) a); ev(RA, n | 1ul << 62); volatile unsigned char *x = a; for (size_t i = 0; i < n; ++i) x[i] = c; return a; }
// ---- the random source: scripted
static unsigned char script[512]; static size_t spos;
int randombytes(unsigned char *b, unsigned long long n) { for (unsigned long long i = 0; i < n; ++i) b[i] = script[spos++ % sizeof script]; return 0; }
// ---- single steps
static volatile int stepping;
static void on_trap(int sig, siginfo_t *i, void *u) { (void) sig; (void) i; if (stepping) { uintptr_t pc = ((ucontext_t *) u)->uc_mcontext.gregs[REG_RIP]; hsh = (hsh ^ pc) * 0x9E3779B97F4A7C15ull; hsh ^= hsh >> 29; ++nev; } }
#define TF_ON()  __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc")
#define TF_OFF() __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc")
// ---- operations: secrets in sec, public inputs fixed, outputs to static buffers
static unsigned char sec[2048], pub[2048], out1[2048], out2[2048];
enum { GA, GB, AA, AB, RB, KP, EN, DE, NOPS };
static const char *name[] = { "key generation A", "key generation B", "agreement A", "agreement B", "random keys", "KEM key generation", "encapsulation", "decapsulation" };
// on a stack of its own, so that its addresses do not depend on the caller
static ucontext_t uc_main, uc_op; static unsigned char stk[1 << 21] __attribute__((aligned(4096))); static int op_nr;
static void op_body(void)
{
    int o = op_nr;
    spos = 0; memset(out1, 0, sizeof out1); memset(out2, 0, sizeof out2); memcpy(script, sec, sizeof script); nev = 0; hsh = 1; on = 1;
    switch (o) {
    case GA: DH(KeyGeneration_A)(sec, out1); break;
    case GB: DH(KeyGeneration_B)(sec, out1); break;
    case AA: DH(SecretAgreement_A)(sec, pub, out1); break;
    case AB: DH(SecretAgreement_B)(sec, pub, out1); break;
    case RB: RMO(A)(out1); RMO(B)(out2); break;
    case KP: KEM(keypair)(out1, out2); break;
    case EN: KEM(enc)(out1, out2, pub); break;
    case DE: KEM(dec)(out1, pub, sec); break;
    }
    on = 0; if (nev / CHUNK < MAXC) cur[nev / CHUNK] = hsh;
}
static void op(int o) { op_nr = o; getcontext(&uc_op); uc_op.uc_stack.ss_sp = stk; uc_op.uc_stack.ss_size = sizeof stk; uc_op.uc_link = &uc_main; makecontext(&uc_op, op_body, 0); swapcontext(&uc_main, &uc_op); }
static uint64_t *base, *tmp; static unsigned long bn; static unsigned char bsec[2048];
static void where(char *o, size_t n, Ev *e)
{
    extern char __executable_start; char cmd[300]; o[0] = 0; snprintf(cmd, sizeof cmd, "addr2line -f -s -e /proc/%d/exe 0x%lx 2>/dev/null", (int) getpid(), (unsigned long) (e->pc - (uintptr_t) &__executable_start));
    FILE *f = popen(cmd, "r"); if (f) { size_t k = fread(o, 1, n - 1, f); o[k] = 0; pclose(f); for (char *p = o; *p; ++p) if (*p == '\n') *p = ' '; }
    snprintf(o + strlen(o), n - strlen(o), "%s", e->ad ? "(memory address)" : "(branch)");
}
static void first(int o)
{   // the reference trace; repeated, because the very first run may differ (lazy initialisation)
    memcpy(bsec, sec, sizeof sec); addrs = 1;
    for (int t = 0; t < 2; ++t) { cur = base; op(o); cur = tmp; uint64_t h; bn = nev; h = hsh; op(o); if (nev == bn && hsh == h) break; if (t == 1) addrs = 0; }
    cur = base; op(o); bn = nev; cur = tmp; ++mc_n_exec; ++mc_n_state; mc_n_trans += bn;
}
static void again(int o, const char *what)
{
    cur = tmp; op(o); ++mc_n_exec; ++mc_n_state; ++mc_n_nontriv; mc_n_trans += nev;
    uint64_t *b = base; if (nev == bn && b[bn / CHUNK < MAXC ? bn / CHUNK : MAXC - 1] == hsh) return;
    unsigned long n = nev, m = n < bn ? n : bn, k = 0; while (k < m / CHUNK && tmp[k] == base[k]) ++k;
    Ev *e1 = calloc(CHUNK, sizeof *e1), *e2 = calloc(CHUNK, sizeof *e2); cap = k; evs = e1; op(o);
    unsigned char s[2048]; memcpy(s, sec, sizeof s); memcpy(sec, bsec, sizeof s); evs = e2; op(o); memcpy(sec, s, sizeof s); cap = -1ul;
    int i = 0; while (i < CHUNK && e1[i].pc == e2[i].pc && e1[i].ad == e2[i].ad) ++i;
    char w1[300] = "?", w2[300] = "?"; if (i < CHUNK) { if (e1[i].pc) where(w1, sizeof w1, e1 + i); if (e2[i].pc) where(w2, sizeof w2, e2 + i); }
    mc_violation("%s: what is executed depends on the secret (%s): step %lu is at %s instead of %s", name[o], what, k * CHUNK + i, w1, w2); free(e1); free(e2);
}
static size_t sh, ns, unit; static int mine(void) { return unit++ % ns == sh; }
static unsigned char maskA, maskB;
// secret number i of n bytes; i < nstruct structured, beyond: mixed
static void mk(unsigned char *o, int n, unsigned long i, unsigned char mask)
{
#ifdef BITS
    for (int k = 0; k < n; ++k) switch (i) {
        case 0: o[k] = mc_mix(k + 77) >> 11; break; case 1: o[k] = 0; break; case 2: o[k] = 255; break; case 3: o[k] = k == 0; break; case 4: o[k] = k == n-1 ? mask : 0; break;
        case 5: o[k] = 0x55; break; case 6: o[k] = 0xaa; break; case 7: o[k] = k < n/2 ? 255 : 0; break; case 8: o[k] = k < n/2 ? 0 : 255; break; case 9: o[k] = (k / 8 & 1) ? 255 : 0; break;
        case 10: o[k] = k == 0 ? 2 : 0; break; case 11: o[k] = k == 0 ? 3 : 0; break; case 12: o[k] = k == 0 ? 254 : 255; break; case 13: o[k] = k == n/2; break;
        default: o[k] = mc_mix(i * 1000 + k) >> 19; }
#else
    for (int k = 0; k < n; ++k) o[k] = i >> 8*k;
#endif
    if (mask) o[n-1] &= mask;
}
#ifdef BITS
// ---- field routines
#define W_ __attribute__((weak))
#define F(a) C(a, BITS)
#define F_M(a) C(C(a, BITS), _mont)
typedef uint64_t D; typedef D FE[12], FE2[2][12];
extern void F(fpadd)(const D *, const D *, D *) W_, F(fpsub)(const D *, const D *, D *) W_, F_M(fpmul)(const D *, const D *, D *) W_, F(fpneg)(D *) W_, F(fpcorrection)(D *) W_, F_M(fpsqr)(const D *, D *) W_, F_M(fpinv)(D *) W_;
extern void F_M(fp2mul)(const void *, const void *, void *) W_, F_M(fp2sqr)(const void *, void *) W_, F_M(fp2inv)(void *) W_, F(fp2add)(const void *, const void *, void *) W_, F(fp2sub)(const void *, const void *, void *) W_;
extern int8_t ct_compare(const uint8_t *, const uint8_t *, unsigned) W_; extern void ct_cmov(uint8_t *, const uint8_t *, unsigned, int8_t) W_;
#ifdef _FAST_
enum { FAST = 1 };
#else
enum { FAST = 0 };
#endif
enum { NW = (BITS + 63) / 64 };
static D fa[2*12], fb[2*12], fr[4*12]; static int fop;
static const char *fname[] = { "fpadd", "fpsub", "fpmul_mont", "fpneg", "fpcorrection", "fpsqr_mont", "fpinv_mont", "fp2mul_mont", "fp2sqr_mont", "fp2inv_mont", "fp2add", "fp2sub", "ct_compare", "ct_cmov" };
static int have(int o) { const void *t[] = { F(fpadd), F(fpsub), F_M(fpmul), F(fpneg), F(fpcorrection), F_M(fpsqr), F_M(fpinv), F_M(fp2mul), F_M(fp2sqr), F_M(fp2inv), F(fp2add), F(fp2sub), ct_compare, ct_cmov }; return t[o] != 0; }
static __attribute__((noinline)) void fcall(void)
{
    switch (fop) {
    case 0: F(fpadd)(fa, fb, fr); break; case 1: F(fpsub)(fa, fb, fr); break; case 2: F_M(fpmul)(fa, fb, fr); break; case 3: F(fpneg)(fr); break; case 4: F(fpcorrection)(fr); break;
    case 5: F_M(fpsqr)(fa, fr); break; case 6: F_M(fpinv)(fr); break;
    case 7: F_M(fp2mul)(fa, fb, fr); break; case 8: F_M(fp2sqr)(fa, fr); break; case 9: F_M(fp2inv)(fr); break; case 10: F(fp2add)(fa, fb, fr); break; case 11: F(fp2sub)(fa, fb, fr); break;
    case 12: ct_compare((void *) fa, (void *) fb, 8 * NW); break; case 13: ct_cmov((void *) fr, (void *) fa, 8 * NW, fb[0] & 1 ? -1 : 0); break;
    }
}
static int step_mode;
static void frun(void)
{
    for (int i = 0; i < 24; ++i) fr[i] = fa[i]; nev = 0; hsh = 1;
    if (step_mode) { stepping = 1; TF_ON(); fcall(); TF_OFF(); stepping = 0; }
    else { on = 1; fcall(); on = 0; }
}
static void fbody(void) { frun(); }
static void fgo(void) { getcontext(&uc_op); uc_op.uc_stack.ss_sp = stk; uc_op.uc_stack.ss_size = sizeof stk; uc_op.uc_link = &uc_main; makecontext(&uc_op, fbody, 0); swapcontext(&uc_main, &uc_op); }
static int field(int thor)
{
    static D al[64][NW]; int n = 0; D p[NW];
    // p = 2^a 3^b - 1, from its exponents
    static const int ex[][3] = { { 434, 216, 137 }, { 503, 250, 159 }, { 610, 305, 192 }, { 751, 372, 239 } };
    for (int q = 0; q < 4; ++q) if (ex[q][0] == BITS) { for (int i = 0; i < NW; ++i) p[i] = i == 0; for (int k = 0; k < ex[q][1] + ex[q][2]; ++k) { unsigned __int128 c = 0; for (int i = 0; i < NW; ++i) { c += (unsigned __int128) p[i] * (k < ex[q][1] ? 2 : 3); p[i] = c; c >>= 64; } } for (int i = 0; i < NW && p[i]-- == 0; ++i); }
#define PUT(e) do { for (int i = 0; i < NW; ++i) al[n][i] = (e); ++n; } while (0)
    PUT(mc_mix(i + 3) >> (i == NW-1 ? 40 : 0)); PUT(0); PUT(i == 0); PUT(p[i]); PUT(i ? p[i] : p[i] - 1); PUT(i == 0 ? 2 : 0);
    { D t[NW], c = 0; for (int i = 0; i < NW; ++i) { t[i] = p[i] << 1 | c; c = p[i] >> 63; } PUT(i ? t[i] : t[i] - 1); PUT(i ? t[i] : t[i] - 2); c = 1; for (int i = 0; i < NW; ++i) { D o = p[i] + c; c = c && !o; t[i] = o; } PUT(t[i]); }
    for (int k = 0; k < NW; ++k) { PUT(i < k ? -1ul : 0); PUT(i == k ? 1 : 0); if (k < NW-1) PUT(i == k ? -1ul : 0); }
    for (int k = 0; k < (thor ? 12 : 4); ++k) PUT(mc_mix(i + 100 * k + 50) >> (i == NW-1 ? 30 : 0));
    for (int o = 0; o < 14; ++o) {
        if (!have(o)) { mc_sample("no routine %s", fname[o]); continue; }
        int one = o == 3 || o == 4 || o == 5 || o == 6 || o == 8 || o == 9; unsigned long bh = 0, bnv = 0; int heavy = o == 6 || o == 9, few = !step_mode ? 99 : FAST ? 14 : 5; if (heavy && step_mode && !thor && !FAST) continue; int st = heavy && !thor ? (step_mode ? 14 : 5) : 1;
        for (int t = -1; t < n; t += t < 0 ? 1 : st) for (int u = 0; u < (one ? 1 : n); ++u) {
            if (!thor && ((t > few && !heavy) || u > few)) continue;
            if (t > 0 && !mine()) continue;
            int v = t < 0 ? 0 : t; for (int i = 0; i < NW; ++i) { fa[i] = al[v][i]; fb[i] = al[u][i]; fa[NW + i] = al[(v * 3 + u) % n][i]; fb[NW + i] = al[(u * 5 + v) % n][i]; }
            fop = o; mc_context("%s of values %d, %d", fname[o], v, u); fgo(); ++mc_n_exec; ++mc_n_state; mc_n_trans += nev;
            if (t < 0 || (t == 0 && u == 0)) { bh = hsh; bnv = nev; if (!nev) { mc_violation("%s: nothing was traced", fname[o]); return mc_finish(); } continue; }
            ++mc_n_nontriv; if (hsh != bh || nev != bnv) { mc_violation("%s: what is executed depends on the operands (%d, %d): %lu steps instead of %lu", fname[o], v, u, nev, bnv); break; }
        }
    }
    return mc_finish();
}
#endif
int main(int argc, char **argv)
{
    mc_start(); if (argc < 5) return 3; sh = atol(argv[2]); ns = atol(argv[3]); int thor = atoi(argv[4]);
    base = malloc(MAXC * 8); tmp = malloc(MAXC * 8); cur = tmp;
#ifdef BITS
    struct sigaction sa_ = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO }; sigaction(SIGTRAP, &sa_, 0);
    if (!strcmp(argv[1], "field")) return field(thor);
    if (!strcmp(argv[1], "step")) { step_mode = 1; return field(thor); }
#endif
    unsigned long nsec = thor; int npub = argc > 5 ? atoi(argv[5]) : 0; thor = nsec > 20;
    // the masks of the most significant bytes, from the library's own sampler
    for (size_t i = 0; i < sizeof sec; ++i) sec[i] = 255; op(RB); maskA = out1[SA-1]; maskB = out2[SB-1];
#ifdef BITS
    unsigned long na = nsec, nb = na, nm = nsec; int np = npub;
#else
    unsigned long na = (unsigned long) (maskA + 1) << 8 * (SA - 1), nb = (unsigned long) (maskB + 1) << 8 * (SB - 1), nm = thor ? 400 : 60; int np = thor ? 16 : 6;
#endif
    char what[200];
    for (int o = GA; o <= AB; ++o) for (int p = 0; p < (o < AA ? 1 : np); ++p) {
        if (!mine()) continue;
        int n = o == GA || o == AA ? SA : SB; unsigned char m = n == SA && (o == GA || o == AA) ? maskA : maskB;
        if (o >= AA) { mk(sec, o == AA ? SB : SA, p * 5 + (p > 0), o == AA ? maskB : maskA); op(o == AA ? GB : GA); memcpy(pub, out1, PK); }
        memset(sec, 0, sizeof sec); mk(sec, n, 0, m); mc_context("%s", name[o]); first(o);
        for (unsigned long i = 1; i < (o == GA || o == AA ? na : nb); ++i) { mk(sec, n, i, m); snprintf(what, sizeof what, "secret %lu, public input %d", i, p); mc_context("%s, %s", name[o], what); again(o, what); }
    }
    for (int o = RB; o <= EN; ++o) for (int p = 0; p < (o == EN ? np : 1); ++p) {
        if (!mine()) continue;
        if (o == EN) { mk(sec, SB, p, maskB); op(GB); memcpy(pub, out1, PK); }
        for (unsigned long i = 0; i < (o == EN ? nm : o == KP ? nb : nsec * 8); ++i) {
            for (size_t k = 0; k < 512; ++k) sec[k] = o == RB ? (i < 2 ? (int) -i : mc_mix(i * 512 + k) >> 9) : i == 1 ? 0 : i == 2 ? 255 : mc_mix(i * 512 + k + 9) >> 9;
#ifndef BITS
            if (o == KP) mk(sec + MSG, SB, i, 0);
#endif
            snprintf(what, sizeof what, "random bytes %lu, public input %d", i, p); mc_context("%s, %s", name[o], what); if (!i) first(o); else again(o, what);
        }
    }
    // decapsulation: a fixed ciphertext under different secret keys (s, key), and a fixed key with ciphertexts that are valid, or invalid in the second part only:
    // whether a ciphertext is accepted must not show either
    for (int p = 0; p < np; ++p) {
        if (!mine()) continue;
        unsigned char pk[1024], sk[1200], ct[2048];
        for (size_t k = 0; k < 512; ++k) sec[k] = mc_mix(p * 512 + k) >> 13; op(KP); memcpy(pk, out1, CRYPTO_PUBLICKEYBYTES); memcpy(sk, out2, CRYPTO_SECRETKEYBYTES);
        for (size_t k = 0; k < 512; ++k) sec[k] = mc_mix(p * 712 + k) >> 13; memcpy(pub, pk, sizeof pk); op(EN); memcpy(ct, out1, CT);
        memcpy(pub, ct, CT); memset(sec, 0, sizeof sec); memcpy(sec, sk, CRYPTO_SECRETKEYBYTES); mc_context("decapsulation"); first(DE);
        for (unsigned long i = 0; i < (thor || nb < 40 ? nb : 40); ++i) for (int v = 0; v < 2; ++v) {
            memcpy(sec, sk, CRYPTO_SECRETKEYBYTES); if (v) memset(sec, (int) i, MSG); else mk(sec + MSG, SB, i, maskB);
            snprintf(what, sizeof what, "ciphertext %d, %s %lu", p, v ? "rejection value" : "secret key", i); mc_context("decapsulation, %s", what); again(DE, what);
        }
        memcpy(sec, sk, CRYPTO_SECRETKEYBYTES);
        for (int i = 0; i < MSG; i += thor || nsec > 10 || !npub ? 1 : 9) for (int b = 0; b < (thor ? 8 : 1); ++b) { memcpy(pub, ct, CT); pub[CRYPTO_PUBLICKEYBYTES + i] ^= 1 << (b * 7 + i) % 8; snprintf(what, sizeof what, "ciphertext %d changed at byte %d of its second part", p, i); mc_context("decapsulation, %s", what); again(DE, what); }
    }
    if (addrs) mc_sample("traces include addresses; last: %lu events", bn);
    return mc_finish();
}
#pragma clang attribute pop
