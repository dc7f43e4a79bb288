// C19: the verifier and the walk generator on arbitrary contents, under sanitizers.  Works over the
// reduced builds and over the real parameter sets (-DREAL).
//   h_c19 vals sh ns rm F    : every raw value of one field of an honest proof (two raw bytes exhaustively, otherwise an alphabet)
//   h_c19 pairs sh ns rm     : two fields at once, every pair of an alphabet
//   h_c19 tags sh ns         : tag values x contents
//   h_c19 gen sh ns rm       : every raw start curve through Generate, Prove and Verify
#define _GNU_SOURCE
#include <stddef.h>
#include "mc.h"
#include "poik.h"
#ifndef REAL
#include "rnd.h"
extern unsigned mc_rep_mode;
#else
#include <gmp.h>
static unsigned mc_rep_mode; static uint64_t rs; static void rnd_reset(uint64_t s) { rs = s * 1000003; }
int randombytes(unsigned char *b, unsigned long long n) { for (unsigned long long i = 0; i < n; ++i) b[i] = mc_mix(rs++) >> 13; return 0; }
static const struct { int b, e2, e3; } PR[] = { { 434, 216, 137 }, { 503, 250, 159 }, { 610, 305, 192 }, { 751, 372, 239 } };
#endif
enum { NB = sizeof(packed_fp2) / 2 };
static size_t sh, ns, unit; static int mine(void) { return unit++ % ns == sh; }
static unsigned char alpha[64][NB]; static int na;
static void put(const unsigned char *v, size_t n) { memset(alpha[na], 0, NB); memcpy(alpha[na++], v, n < NB ? n : NB); }
static void mkalpha(void)
{
    unsigned char p[NB+1] = { 0 }, t[NB]; memset(p, 0, sizeof p);
#ifdef REAL
    mpz_t z; mpz_init(z); for (int i = 0; i < 4; ++i) if (PR[i].b == POIK_BITS) { mpz_ui_pow_ui(z, 3, PR[i].e3); mpz_mul_2exp(z, z, PR[i].e2); mpz_sub_ui(z, z, 1); }
    mpz_export(p, NULL, -1, 1, 0, 0, z);
#else
    for (int i = 0; i < NB; ++i) p[i] = (unsigned long) MC_P >> 8*i;
#endif
    for (int k = 0; k < 4; ++k) { memset(t, 0, NB); t[0] = k; put(t, NB); }
    for (int k = -3; k <= 3; ++k) { int c = k; memcpy(t, p, NB); for (int i = 0; i < NB; ++i) { c += t[i]; t[i] = c; c >>= 8; } put(t, NB); }
    for (int m = 2; m <= 3; ++m) { int c = 0; for (int i = 0; i < NB; ++i) { c += m * p[i]; t[i] = c; c >>= 8; } put(t, NB); }
    memset(t, 0xff, NB); put(t, NB); memset(t, 0xff, NB); t[NB-1] = 0x7f; put(t, NB); memset(t, 0, NB); t[NB-1] = 0x80; put(t, NB); memset(t, 0xff, NB); t[0] = 0; put(t, NB); memset(t, 0x55, NB); put(t, NB);
    // (p-1)/2 and (p+1)/2, p-6, 6
    { int c = 0; for (int i = NB-1; i >= 0; --i) { int v = c << 8 | p[i]; t[i] = v >> 1; c = v & 1; } put(t, NB); } memset(t, 0, NB); t[0] = 6; put(t, NB); { int c = -6; memcpy(t, p, NB); for (int i = 0; i < NB; ++i) { c += t[i]; t[i] = c; c >>= 8; } put(t, NB); }
}
static struct proof *H;       // honest proofs; heap blocks of the exact size
static struct proof *honest(unsigned long seed)
{
    struct secret *s = malloc(sizeof *s); struct proof *p = malloc(sizeof *p); packed_fp2 *E = calloc(1, sizeof *E);
    rnd_reset(seed); mc_rep_mode = 0;
#ifdef REAL
    E->bytes[0] = 6;
#else
    for (unsigned long k = 0;; ++k) { E->bytes[0] = k % MC_P; E->bytes[NB] = k / MC_P % MC_P; if (Generate(E, s)) break; if (k > MC_P * MC_P) { fprintf(stderr, "no start curve\n"); exit(3); } }
#endif
    memset(p, 0, sizeof *p);
    if (!Generate(E, s)) { fprintf(stderr, "no start curve\n"); exit(3); }
    Prove(s, p); free(s); free(E); return p;
}
static int run(const struct proof *p, const char *what)
{
    struct proof *q = malloc(sizeof *q); memcpy(q, p, sizeof *q); (void) what;
    alarm(60); int r = Verify(q); alarm(0);
    if (memcmp(p, q, sizeof *q)) mc_violation("Verify modifies the proof (%s)", mc_ctx);
    free(q); ++mc_n_exec; ++mc_n_state; mc_n_trans += POIK_REPS; mc_n_nontriv += !r; return r;
}
// the fields of a proof: 0,1 = E0,E1; then the packed values of repetition i
static packed_fp2 *field(struct proof *p, int k)
{
    if (k < 2) return k ? &p->E1 : &p->E0;
    k -= 2;
    for (size_t i = 0; i < POIK_REPS; ++i) {
        struct response *r = &p->resp[i]; int n = r->tag == 0 ? 1 + POIK_WIDTH : POIK_HEIGHT;
        if (k < n) return r->tag < 0 ? &r->left.chain.x[k] : r->tag > 0 ? &r->right.chain.x[k] : k ? &r->bottom.chain.x[k-1] : &r->bottom.E2;
        k -= n;
    }
    return NULL;
}
int main(int argc, char **argv)
{
    mc_start();
    const char *mode = argv[1]; sh = atoi(argv[2]); ns = atoi(argv[3]); unsigned rm = argc > 4 ? atoi(argv[4]) : 0; int lim = argc > 5 ? atoi(argv[5]) : 0;
    mkalpha(); Progress_Indicator_File = fopen("/dev/null", "w");   // as both programs have it: drawn to a file
    if (!strcmp(mode, "vals") || !strcmp(mode, "pairs")) {
        int pairs = mode[0] == 'p';
        for (unsigned long s = 1; s <= 2; ++s) {
            H = honest(s); mc_rep_mode = rm; int nf = 0; while (field(H, nf)) ++nf;
            struct proof *T = malloc(sizeof *T);
            if (s == 1) mc_sample("%d packed values per proof, %d raw alphabet values, tag of the first repetition %d", nf, na, (int) H->resp[0].tag);
            for (int k = 0; k < nf; ++k) {
                if (!pairs) {
                    unsigned long full = NB == 1 && !lim ? 65536 : (unsigned long) na * na;
                    if (s > 1 && k < 2) continue;
                    for (unsigned long v = 0; v < full; ++v) {
                        if (lim && v % lim) continue;
                        if (!mine()) continue;
                        memcpy(T, H, sizeof *T); unsigned char *f = field(T, k)->bytes;
                        if (full == 65536) f[0] = v, f[1] = v >> 8; else { memcpy(f, alpha[v % na], NB); memcpy(f + NB, alpha[v / na], NB); }
                        mc_context("seed %lu field %d value %lu rep %u", s, k, v, rm); rnd_reset(v); run(T, "");
                    }
                } else for (int l = k+1; l < nf; ++l) for (int a = 0; a < na; a += s) for (int b = 0; b < na; b += s) {
                    if (lim && (a + b) % lim) continue;
                    if (!mine()) continue;
                    memcpy(T, H, sizeof *T); unsigned char *f = field(T, k)->bytes, *g = field(T, l)->bytes;
                    memcpy(f, alpha[a], NB); memcpy(g, alpha[b], NB); if (a & 1) memcpy(f + NB, alpha[b], NB); if (b & 1) memcpy(g + NB, alpha[a], NB);
                    mc_context("seed %lu fields %d,%d values %d,%d rep %u", s, k, l, a, b, rm); rnd_reset(a*64+b); run(T, "");
                }
            }
            free(T); free(H);
        }
    } else if (!strcmp(mode, "tags")) {
        for (unsigned long s = 3;; ++s) {      // reduced fields: some honest walks pass curves with extra automorphisms and are rejected
            H = honest(s); rnd_reset(0); if (run(H, "")) break; free(H);
            if (s > 200) { mc_violation("no honest proof is accepted"); return mc_finish(); }
        }
        struct proof *T = malloc(sizeof *T);
        for (long v = -600; v < 600 + 31*4; ++v) for (size_t i = 0; i < POIK_REPS; ++i) for (int c = 0; c < 4; ++c) {
            if (!mine()) continue;
            int tag = v < 600 ? v : (int) ((1u << (v - 600) / 4) * ((v & 1) ? -1 : 1) + (v >> 1 & 1));
            memcpy(T, H, sizeof *T); if (c) memset(&T->resp[i].left, c == 1 ? 0 : c == 2 ? 0xff : 0x5a, sizeof T->resp[i] - offsetof(struct response, left));
            T->resp[i].tag = tag; mc_context("tag %d in repetition %zu content %d", tag, i, c); rnd_reset(v); int r = run(T, "");
            // tags are represented by an int8_t internally; files with other values never get this far (C09)
            if (r && (int8_t) tag != (int8_t) H->resp[i].tag) mc_violation("a proof with the tag %d in repetition %zu is accepted", tag, i);
        }
        for (int v = 0; v < 256; ++v) if (mine()) { memset(T, v, sizeof *T); mc_context("all bytes %d", v); rnd_reset(v); run(T, ""); T->E0 = H->E0; T->E1 = H->E1; run(T, ""); for (size_t i = 0; i < POIK_REPS; ++i) T->resp[i].tag = H->resp[i].tag; run(T, ""); }
        free(T); free(H);
    } else if (!strcmp(mode, "gen")) {
        unsigned long full = NB == 1 && !lim ? 65536 : (unsigned long) na * na;
        struct secret *s = malloc(sizeof *s); struct proof *p = malloc(sizeof *p); packed_fp2 *E = malloc(sizeof *E);
        for (unsigned long v = 0; v < full; ++v) {
            if (lim && v % lim) continue;
            if (!mine()) continue;
            unsigned char *f = E->bytes;
            if (full == 65536) f[0] = v, f[1] = v >> 8; else { memcpy(f, alpha[v % na], NB); memcpy(f + NB, alpha[v / na], NB); }
            mc_context("Generate from the raw value %lu rep %u", v, rm); mc_rep_mode = rm; rnd_reset(v); memset(p, 0, sizeof *p); alarm(60);
            bool ok = Generate(E, s); ++mc_n_exec; ++mc_n_state; ++mc_n_trans;
            if (ok) { Prove(s, p); alarm(0); run(p, ""); }
            else ++mc_n_nontriv;
        }
        free(s); free(p); free(E);
    } else return 3;
    return mc_finish();
}
