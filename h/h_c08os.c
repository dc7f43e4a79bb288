// C08 (a): the real randombytes() under every sequence of operating-system outcomes.
//   h_c08os os sh ns maxn budget : open/read outcomes, all short-read lengths, two successive requests
//   h_c08os big                  : requests beyond 2^31 and 2^32 bytes (bytes counted, not written)
#define _GNU_SOURCE
#define MC_NOSIG
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
int randombytes(unsigned char *, unsigned long long);
#define MAXC 64
struct shared { int len; int path[MAXC], width[MAXC]; char msg[512]; int viol; long calls, faults; char trace[900]; int done; };
static struct shared *S;
static int pos, budget, armed, fd_val, is_open; static long ncalls; static unsigned long long delivered; static int big; static unsigned long long want_total;
static unsigned char *big_base;
static unsigned char stream(unsigned long long t) { return mc_mix(t * 7 + 1) >> 23; }
static int choose(int w) { if (pos >= MAXC) return 0; if (pos == S->len) { S->path[pos] = 0; S->width[pos] = w; S->len++; } return S->path[pos++]; }
static void note(const char *f, ...) { va_list a; va_start(a, f); size_t l = strlen(S->trace); if (l < 850) vsnprintf(S->trace + l, 900 - l, f, a); va_end(a); }
static void bad(const char *f, ...) { va_list a; va_start(a, f); if (!S->viol) vsnprintf(S->msg, 512, f, a); S->viol = 1; va_end(a); _exit(0); }
static void tick(void) { S->calls++; if (++ncalls > 20000) bad("does not come to an end"); }
static int env_open(const char *p)
{
    tick();
    int o = budget > 0 ? choose(6) : choose(3);
    if (o < 3) { fd_val = o == 0 ? 900 : o == 1 ? 0 : 1021; is_open = 1; note("open=%d ", fd_val); return fd_val; }
    --budget; S->faults++; errno = o == 3 ? ENOENT : o == 4 ? EINTR : EMFILE; note("open fails(%d) ", errno); return -1;
}
static ssize_t env_read(int fd, void *buf, size_t n)
{
    tick();
    if (!is_open || fd != fd_val) { note("read(fd %d)=EBADF ", fd); errno = EBADF; return -1; }
    if (big) { if (n > 0x7ffff000) n = 0x7ffff000; if ((unsigned char *) buf != big_base + delivered) bad("piece at the wrong place after %llu bytes", delivered); delivered += n; return n; }
    size_t got = n;
    if (budget > 0 && n) {
        size_t shortn = n <= 8 ? n - 1 : 3;
        int o = choose(1 + 4 + (int) shortn);
        if (o) { --budget; S->faults++; }
        if (o >= 1 && o <= 3) { errno = o == 1 ? EINTR : o == 2 ? EAGAIN : EIO; note("read(%zu)=-1(%d) ", n, errno); return -1; }
        if (o == 4) { note("read(%zu)=0 ", n); return 0; }
        if (o >= 5) got = n <= 8 ? (size_t)(o - 4) : o == 5 ? 1 : o == 6 ? n / 2 : n - 1;
    }
    note("read(%zu)=%zu ", n, got);
    for (size_t i = 0; i < got; ++i) ((unsigned char *) buf)[i] = stream(delivered++);
    return got;
}
// stand-ins for what the source may call; the process's own descriptors are reached through syscall()
int open(const char *p, int fl, ...) { if (!armed) return syscall(SYS_open, p, fl, 0600); return env_open(p); }
int open64(const char *p, int fl, ...) { if (!armed) return syscall(SYS_open, p, fl, 0600); return env_open(p); }
int openat(int d, const char *p, int fl, ...) { if (!armed) return syscall(SYS_openat, d, p, fl, 0600); return env_open(p); }
int __open_2(const char *p, int fl) { return env_open(p); }
ssize_t read(int fd, void *b, size_t n) { if (!armed) return syscall(SYS_read, fd, b, n); return env_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { return env_read(fd, b, n); }
int close(int fd) { if (!armed) return syscall(SYS_close, fd); if (fd == fd_val) is_open = 0; return 0; }
ssize_t getrandom(void *b, size_t n, unsigned fl) { is_open = 1; int f = fd_val; fd_val = -7; ssize_t r = env_read(-7, b, n); fd_val = f; return r; }
int getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } if (budget > 0 && choose(2)) { --budget; errno = EIO; return -1; } for (size_t i = 0; i < n; ++i) ((unsigned char *) b)[i] = stream(delivered++); return 0; }
unsigned sleep(unsigned s) { tick(); return 0; }
int usleep(useconds_t s) { tick(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { tick(); return 0; }
static void request(unsigned n, int which)
{
    static unsigned char b[4096 + 256]; memset(b, 0xC3, sizeof b);
    unsigned long long d0 = delivered; note("| request %u: ", n);
    int rc = randombytes(b + 128, n); note("-> %d ", rc);
    if (rc == 0) {
        if (delivered - d0 != n) bad("success after %llu of %u bytes", delivered - d0, n);
        for (unsigned i = 0; i < n; ++i) if (b[128 + i] != stream(d0 + i)) bad("byte %u of %u is not the delivered one", i, n);
    }
    for (unsigned i = 0; i < 128; ++i) if (b[i] != 0xC3 || b[128 + n + i] != 0xC3) bad("bytes outside the request of %u bytes were changed", n);
}
int main(int argc, char **argv)
{
    mc_start(); S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!strcmp(argv[1], "big")) {
        unsigned long long sz[] = { 0x7fffffffull, 0x80000000ull, 0x80000005ull, 0xffffffffull, 0x100000000ull, 0x100000007ull, 0x1000000000ull };
        for (int i = 0; i < 7; ++i) {
            big = 1; armed = 1; delivered = 0; ncalls = 0; S->viol = 0; is_open = 0; fd_val = 900; S->len = 0; pos = 0; budget = 0;
            pid_t c = fork(); if (!c) { is_open = 1; fd_val = 900; big_base = (unsigned char *) 0x100000000000ull; int rc = randombytes(big_base, sz[i]); if (rc == 0 && delivered != sz[i]) bad("a request of %llu bytes succeeds after %llu", sz[i], delivered); _exit(0); }
            int st; waitpid(c, &st, 0); ++mc_n_exec; ++mc_n_trans; ++mc_n_state; ++mc_n_nontriv;
            if (S->viol) mc_violation("%s", S->msg); else if (st) mc_violation("request of %llu bytes ends with status %x", sz[i], st);
        }
        armed = 0; mc_sample("requests of up to %llu bytes", sz[6]); return mc_finish();
    }
    size_t sh = atoi(argv[2]), ns = atoi(argv[3]); unsigned maxn = atoi(argv[4]); int bud = atoi(argv[5]);
    unsigned sizes[40], n = 0; for (unsigned i = 0; i <= maxn; ++i) sizes[n++] = i; sizes[n++] = 32; sizes[n++] = 64; sizes[n++] = 3000;
    unsigned long unit = 0;
    for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) {
        if (b != (a + 1) % n && b != 2 && !(a <= 3 && b <= 3)) continue;
        if (unit++ % ns != sh) continue;
        S->len = 0;
        for (;;) {
            S->viol = 0; S->trace[0] = 0; S->calls = 0; S->faults = 0;
            pid_t c = fork();
            if (!c) { pos = 0; budget = bud; armed = 1; ncalls = 0; delivered = 0; is_open = 0; fd_val = -2; alarm(20); request(sizes[a], 0); request(sizes[b], 1); _exit(0); }
            int st; waitpid(c, &st, 0); ++mc_n_exec; ++mc_n_state; mc_n_trans += S->calls; if (S->faults) ++mc_n_nontriv;
            if (S->viol) mc_violation("%s [%s]", S->msg, S->trace); else if (st) mc_violation("ends with status %x [%s]", st, S->trace);
            if (mc_n_exec % 500 == 7) mc_sample("%s", S->trace);
            while (S->len > 0 && S->path[S->len-1] + 1 >= S->width[S->len-1]) S->len--;
            if (!S->len) break;
            S->path[S->len-1]++;
        }
    }
    return mc_finish();
}
