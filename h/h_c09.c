// C09: Dump/Parse on every bounded content, every truncation and single change of the text, every
// point of failure of the output file.  Works over the reduced builds and over the real parameter sets
// (-DREAL), since only poik.h's public interface is used.
//   h_c09 round sh ns     : every value of every byte of the proof, every combination of tags
//   h_c09 text sh ns      : truncations, substitutions, deletions, insertions, foreign tags
//   h_c09 write sh ns     : the output fails after N bytes (for good, or once), for every N, several buffer sizes
//   h_c09 big             : pattern contents, truncations around every line end (real sizes)
#define _GNU_SOURCE
#include "mc.h"
#include "poik.h"
#include <ctype.h>
#include <errno.h>
#ifndef REAL
#include "rnd.h"
#else
int randombytes(unsigned char *b, unsigned long long n) { memset(b, 7, n); return 0; }
#endif
static struct proof P, Q, Z;
static size_t sh, ns, unit;
static int mine(void) { return unit++ % ns == sh; }
#define CH(x) do { if (memcmp(a->x, b->x, sizeof a->x)) return 0; } while (0)
static int same(const struct proof *A, const struct proof *B)
{
    if (memcmp(&A->E0, &B->E0, sizeof A->E0) || memcmp(&A->E1, &B->E1, sizeof A->E1)) return 0;
    for (size_t i = 0; i < POIK_REPS; ++i) {
        const struct response *a = &A->resp[i], *b = &B->resp[i];
        if (a->tag != b->tag) return 0;
        switch (a->tag) {
        case RESP_LEFT: CH(left.r2); CH(left.h3); CH(left.chain.x); break;
        case RESP_BOTTOM: CH(bottom.r2); CH(bottom.r3); CH(bottom.E2.bytes); CH(bottom.chain.x); break;
        case RESP_RIGHT: CH(right.h2); CH(right.r3); CH(right.chain.x); break;
        }
    }
    return 1;
}
static size_t paylen(int tag) { return tag == 0 ? sizeof P.resp->bottom : sizeof P.resp->left; }
static unsigned char *payload(struct proof *p, size_t i) { return (unsigned char *) &p->resp[i].left; }
static void fill(struct proof *p, unsigned pat, const int *tags)
{
    unsigned n = 0;
    memset(p, 0, sizeof *p);
    unsigned char v;
#define V_ (v = pat == 0 ? 0 : pat == 1 ? 0xff : mc_mix(pat * 100003ull + n++) >> 21)
    for (size_t k = 0; k < sizeof p->E0; ++k) p->E0.bytes[k] = V_, p->E1.bytes[k] = V_;
    for (size_t i = 0; i < POIK_REPS; ++i) { p->resp[i].tag = tags[i % 16]; for (size_t k = 0; k < paylen(tags[i % 16]); ++k) payload(p, i)[k] = V_; }
}
static char *dump(const struct proof *p, size_t *len, int *ok) { char *t = NULL; FILE *f = open_memstream(&t, len); *ok = Dump(f, p); fclose(f); return t; }
static int parse(const char *t, size_t n, struct proof *p)
{
    memset(p, 0x5c, sizeof *p);
    FILE *f = fmemopen((void *) (n ? t : " "), n ? n : 1, "r"); int r = Parse(f, p); fclose(f); ++mc_n_exec; ++mc_n_trans; return r;
}
static void roundtrip(const struct proof *p, const char *what)
{
    size_t n, m; int ok; char *t = dump(p, &n, &ok); ++mc_n_state; ++mc_n_nontriv;
    if (!ok) { mc_violation("Dump reports failure although the file accepts everything (%s)", what); free(t); return; }
    if (!parse(t, n, &Q)) mc_violation("a written proof cannot be read back (%s)", what);
    else if (!same(p, &Q)) mc_violation("a proof read back differs from the one written (%s)", what);
    else { char *u = dump(&Q, &m, &ok); if (!ok || n != m || memcmp(t, u, n)) mc_violation("writing a proof read back gives another text (%s)", what); free(u); }
    free(t);
}
// non-blank characters in lower case
static char *squash(const char *t, size_t n) { char *o = malloc(n + 1), *q = o; for (size_t i = 0; i < n; ++i) if (t[i] && !isspace((unsigned char) t[i])) *q++ = tolower((unsigned char) t[i]); *q = 0; return o; }
// an accepted text must spell the proof it yields (a prefix of it: what follows a proof is ignored); tag_ok: text whose tag is written in another way
static void judge(const char *t, size_t n, const struct proof *orig, int tag_lenient, const char *what, size_t pos, int c)
{
    mc_context("%s at %zu (%d)", what, pos, c);
    ++mc_n_state;
    if (!parse(t, n, &Q)) return;
    for (size_t i = 0; i < POIK_REPS; ++i) if ((int) Q.resp[i].tag < -1 || (int) Q.resp[i].tag > 1) { mc_violation("text with %s at offset %zu (value %d) is accepted with tag %d", what, pos, c, (int) Q.resp[i].tag); return; }
    if (tag_lenient && same(&Q, orig)) return;
    size_t m; int ok; char *u = dump(&Q, &m, &ok), *a = squash(t, n), *b = squash(u, m);
    if (strncmp(a, b, strlen(b))) mc_violation("malformed text is accepted: %s at offset %zu (value %d, text around it: %.*s)", what, pos, c, (int)(n - (pos > 8 ? pos - 8 : 0) < 24 ? n - (pos > 8 ? pos - 8 : 0) : 24), t + (pos > 8 ? pos - 8 : 0));
    else ++mc_n_nontriv;
    free(a); free(b); free(u);
}
// ---- a file that fails ---------------------------------------------------------------------------
static struct { char *got; size_t n, cap; int once, failed, mode; } W;
static ssize_t wr(void *c, const char *b, size_t n)
{
    if (W.failed && !W.once) { errno = ENOSPC; return 0; }
    if (W.n + n > W.cap && !W.failed) {
        size_t k = W.cap - W.n; if (W.mode && k) { memcpy(W.got + W.n, b, k); W.n += k; W.failed = 1; return k; }    // short write, then failure
        W.failed = 1; errno = ENOSPC; return 0;
    }
    memcpy(W.got + W.n, b, n); W.n += n; return n;
}
static void try_write(const struct proof *p, const char *t, size_t n, size_t cap, size_t buf, int once, int mode)
{
    static char got[1 << 22], vb[1 << 16];
    memset(&W, 0, sizeof W); W.got = got; W.cap = cap; W.once = once; W.mode = mode;
    cookie_io_functions_t io = { .write = wr };
    FILE *f = fopencookie(NULL, "w", io); setvbuf(f, vb, buf ? _IOFBF : _IONBF, buf);
    int ok = Dump(f, p), fl = fflush(f), er = ferror(f), delivered = W.n == n && !memcmp(got, t, n);
    fclose(f); ++mc_n_exec; ++mc_n_state; ++mc_n_trans;
    mc_context("write failing after %zu bytes", cap);
    if (!buf && ok && !delivered) mc_violation("Dump returns true although writing failed after %zu of %zu bytes (unbuffered%s%s)", cap, n, once ? ", one failure" : "", mode ? ", short write" : "");
    else if (ok && !fl && !er && !delivered) mc_violation("Dump and flushing report success although only %zu of %zu bytes were written (buffer of %zu)", W.n, n, buf);
    if (!ok && delivered && !W.failed) mc_violation("Dump returns false although everything was written (room for %zu bytes)", cap);
    if (delivered && ok) ++mc_n_nontriv;
}
static void try_write_fp2(size_t cap, int once, int mode)
{
    static char got[1 << 16]; char *t; size_t n;
    FILE *g = open_memstream(&t, &n); Dump_Fp2(g, &P.E0); fclose(g);
    memset(&W, 0, sizeof W); W.got = got; W.cap = cap; W.once = once; W.mode = mode;
    cookie_io_functions_t io = { .write = wr };
    FILE *f = fopencookie(NULL, "w", io); setvbuf(f, NULL, _IONBF, 0);
    int ok = Dump_Fp2(f, &P.E0), delivered = W.n == n && !memcmp(got, t, n); fclose(f); ++mc_n_exec; ++mc_n_state;
    if (ok != delivered && !(once && !ok)) mc_violation("Dump_Fp2 returns %d when writing fails after %zu of %zu bytes", ok, cap, n);
    free(t);
}
int main(int argc, char **argv)
{
    mc_start();
    const char *mode = argv[1]; sh = argc > 2 ? atoi(argv[2]) : 0; ns = argc > 3 ? atoi(argv[3]) : 1;
    int T[16]; const int pw[4] = { 1, 3, 9, 27 };
    if (!strcmp(mode, "round")) {
        for (int tc = 0; tc < 27; ++tc) {
            for (int i = 0; i < 16; ++i) T[i] = tc / pw[i % 3] % 3 - 1;
            for (unsigned pat = 0; pat < 6; ++pat) { if (!mine()) continue; fill(&P, pat, T); mc_context("tags %d pattern %u", tc, pat); roundtrip(&P, mc_ctx); }
            for (size_t i = 0; i < POIK_REPS + 1; ++i) {
                size_t L = i ? paylen(T[(i-1) % 16]) : 2*sizeof P.E0;
                if (i && tc % (int) (1 + 2*i) ) continue;        // each repetition's bytes for a few tag combinations
                for (size_t k = 0; k < L; ++k) for (int v = 0; v < 256; ++v) {
                    if (!mine()) continue;
                    fill(&P, 2, T); (i ? payload(&P, i-1) : (unsigned char *) &P)[k] = v;
                    mc_context("byte %zu of part %zu = %d, tags %d", k, i, v, tc); roundtrip(&P, mc_ctx);
                }
            }
        }
        mc_sample("all values of every byte, 27 tag combinations, %zu-byte proofs", sizeof P);
    } else if (!strcmp(mode, "text")) {
        static const char *tg[] = { "2", "-2", "3", "7", "9", "10", "-10", "11", "-11", "12", "01x", "100", "127", "128", "-128", "-129", "255", "-255", "256", "257", "-256", "-257", "511", "65535", "65536", "65537", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "-4294967295", "-4294967297", "8589934591", "8589934592", "8589934593", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "", "a", "x", "--1", "-", "+", "1x", "0x1", "0x", "1.0", "-1e", "NaN", "\xff", "1,", ",1" };
        for (int tc = 0; tc < 27; ++tc) {
            for (int i = 0; i < 16; ++i) T[i] = tc / pw[i % 3] % 3 - 1;
            fill(&P, 5 + tc, T); memcpy(&Z, &P, sizeof P);
            size_t n; int ok; char *t = dump(&P, &n, &ok); char *u = malloc(n + 4096);
            size_t core = n; while (core && isspace((unsigned char) t[core-1])) --core;
            for (size_t L = 0; L < core; ++L) { if (!mine()) continue; ++mc_n_state; mc_context("truncation to %zu", L); if (parse(t, L, &Q)) mc_violation("text truncated to %zu of %zu characters is accepted", L, n); }
            // substitutions: everything for some tag combinations, a representative alphabet for the others
            for (size_t i = 0; i < core; ++i) {
                char line = 0; { size_t b = i; while (b && t[b-1] != '\n') --b; size_t e = i; while (t[e] != '\n' && e < n) ++e; line = e - b <= 2 && (t[b] == '-' || isdigit((unsigned char) t[b])) && b > 0; }   // within a tag line
                int near_tag = line || (t[i] == '\n');
                for (int c = 0; c < 256; ++c) {
                    if (c == (unsigned char) t[i]) continue;
                    if (tc % 13 && !strchr("0aG,-x \n\t+/:@`g", c ? c : 1) && c != 0 && c != 0xff && c != 0x80) continue;
                    if (!mine()) continue;
                    memcpy(u, t, n); u[i] = c;
                    int hexpos = isxdigit((unsigned char) t[i]) && !line && !(t[i] == '0' && t[i+1] == 'x');
                    if (hexpos && isxdigit(c)) {
                        ++mc_n_state; mc_context("hex digit %c at %zu", c, i);
                        if (!parse(u, n, &Q)) { mc_violation("well-formed text is rejected (digit %c at offset %zu)", c, i); continue; }
                        if (isdigit(c) || islower(c)) { size_t m; char *w = dump(&Q, &m, &ok); if (m != n || memcmp(w, u, n)) mc_violation("digit %c at offset %zu is read back as another value", c, i); free(w); ++mc_n_nontriv; }
                    } else if (hexpos) { ++mc_n_state; mc_context("character %d at %zu", c, i); if (parse(u, n, &Q)) mc_violation("character %d in place of the hexadecimal digit at offset %zu is accepted", c, i); }
                    else judge(u, n, &Z, near_tag, "substitution", i, c);
                }
                if (mine()) { memcpy(u, t, i); memcpy(u + i, t + i + 1, n - i - 1); judge(u, n - 1, &Z, near_tag, "deletion", i, t[i]); }
                for (const char *q = "0a,x-g 1"; *q; ++q) if (mine()) { memcpy(u, t, i); u[i] = *q; memcpy(u + i + 1, t + i, n - i); judge(u, n + 1, &Z, near_tag || (i && t[i-1] == '\n'), "insertion", i, *q); }
                if (line && (i == 0 || t[i-1] == '\n')) {
                    size_t e = i; while (t[e] != '\n') ++e;
                    for (size_t q = 0; q < sizeof tg/sizeof *tg; ++q) {
                        if (!mine()) continue;
                        memcpy(u, t, i); size_t l = strlen(tg[q]); memcpy(u + i, tg[q], l); memcpy(u + i + l, t + e, n - e); ++mc_n_state; mc_context("tag %s", tg[q]);
                        if (parse(u, n - (e - i) + l, &Q)) mc_violation("the tag '%s' is accepted", tg[q]);
                        // ... also when it stands where another tag's data would fit
                    }
                }
            }
            // lines removed, doubled and swapped
            for (size_t i = 0; i < core; ++i) if (i == 0 || t[i-1] == '\n') {
                size_t e = i; while (t[e] != '\n') ++e; ++e;
                if (mine()) { memcpy(u, t, i); memcpy(u + i, t + e, n - e); judge(u, n - (e - i), &Z, 0, "missing line", i, 0); }
                if (mine() && n + (e - i) < n + 4096) { memcpy(u, t, e); memcpy(u + e, t + i, n - i); judge(u, n + (e - i), &Z, 0, "doubled line", i, 0); }
            }
            free(t); free(u);
        }
    } else if (!strcmp(mode, "write")) {
        static const size_t bufs[] = { 0, 1, 2, 7, 64, 512, 4096 };
        for (int tc = 0; tc < 27; tc += 1) {
            for (int i = 0; i < 16; ++i) T[i] = tc / pw[i % 3] % 3 - 1;
            fill(&P, 40 + tc, T); size_t n; int ok; char *t = dump(&P, &n, &ok);
            for (size_t cap = 0; cap <= n + 1; ++cap) for (int o = 0; o < 4; ++o) for (size_t b = 0; b < sizeof bufs/sizeof *bufs; ++b) { if (b > 1 && tc % 9) continue; if (mine()) try_write(&P, t, n, cap, bufs[b], o & 1, o >> 1); }
            free(t);
            if (!tc) for (size_t cap = 0; cap < 4*sizeof P.E0 + 9; ++cap) for (int o = 0; o < 4; ++o) if (mine()) try_write_fp2(cap, o & 1, o >> 1);
        }
    } else if (!strcmp(mode, "big")) {
        for (int tc = 0; tc < 6; ++tc) {
            if (!mine()) continue;
            for (int i = 0; i < 16; ++i) T[i] = tc < 3 ? tc - 1 : (i * (tc - 1) + tc) % 3 - 1;
            fill(&P, tc, T); mc_context("pattern %d", tc); roundtrip(&P, mc_ctx); memcpy(&Z, &P, sizeof P);
            size_t n; int ok; char *t = dump(&P, &n, &ok); size_t core = n; while (core && isspace((unsigned char) t[core-1])) --core;
            size_t lines = 0, L; for (L = 0; L < core; ++L) if (t[L] == '\n' && (++lines % 97 == 1 || core - L < 1000)) {
                mc_context("truncation to %zu", L); if (parse(t, L, &Q)) mc_violation("text truncated to %zu of %zu characters is accepted", L, n); if (parse(t, L - 1, &Q)) mc_violation("text truncated to %zu of %zu characters is accepted", L - 1, n); ++mc_n_state;
            }
            if (parse(t, core - 1, &Q)) mc_violation("text without its last digit is accepted");
            size_t caps[] = { 0, 1, n / 2, n - 2, n - 1, n, n + 1 };
            for (size_t k = 0; k < 7; ++k) for (int o = 0; o < 4; ++o) { try_write(&P, t, n, caps[k], 0, o & 1, o >> 1); try_write(&P, t, n, caps[k], 4096, o & 1, o >> 1); }
            free(t);
        }
    } else return 3;
    return mc_finish();
}
