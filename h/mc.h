// common parts of the harnesses: counters, violations, controlled randomness
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <signal.h>
#include <unistd.h>
static unsigned long mc_n_exec, mc_n_state, mc_n_trans, mc_n_ref, mc_n_nontriv;
static unsigned long mc_nviol;
static char mc_ctx[4096];       // description of the execution in progress (for crash reports)
__attribute__((format(printf,1,2))) static inline void mc_context(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(mc_ctx, sizeof mc_ctx, f, a); va_end(a); }
__attribute__((format(printf,1,2))) static inline void mc_violation(const char *f, ...)
{
    va_list a; va_start(a, f); printf("V "); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout);
    if (++mc_nviol >= 20) { printf("S exec %lu\n", mc_n_exec); fflush(stdout); _exit(1); }
}
__attribute__((format(printf,1,2))) static inline void mc_sample(const char *f, ...)
{
    static int n; if (n++ >= 6) return;
    va_list a; va_start(a, f); printf("X "); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout);
}
static void mc_crash(int sig)
{
    static char b[5000]; int n = snprintf(b, sizeof b, "V signal %d during: %s\n", sig, mc_ctx);
    (void) !write(1, b, n); _exit(1);
}
static inline void mc_start(void)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
#ifndef MC_NOSIG
    int s[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
    for (unsigned i = 0; i < sizeof s/sizeof *s; ++i) signal(s[i], mc_crash);
#endif
}
static inline int mc_finish(void)
{
    printf("S exec %lu\nS states %lu\nS trans %lu\nS refd %lu\nS nontriv %lu\nDONE\n", mc_n_exec, mc_n_state, mc_n_trans, mc_n_ref, mc_n_nontriv);
    fflush(stdout);
    return mc_nviol ? 1 : 0;
}
static inline void mc_hex(char *o, const void *p, size_t n) { for (size_t i = 0; i < n; ++i) sprintf(o+2*i, "%02x", ((const unsigned char *)p)[i]); o[2*n] = 0; }
static inline uint64_t mc_mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
#endif
