// Independent reference for the proof system over a reduced field: plain integers mod p, affine
// Weierstrass arithmetic, textbook Velu isogenies, own Keccak.  Shares no code with /repo.
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include "tiny_params.h"
#define P_ MC_P
typedef struct { uint32_t a, b; } F2;
#define F2N ((size_t)P_*P_)
static inline F2 f2(long a, long b) { F2 r; r.a = ((a % P_) + P_) % P_; r.b = ((b % P_) + P_) % P_; return r; }
static inline size_t f2i(F2 x) { return (size_t) x.a * P_ + x.b; }
static inline F2 i2f(size_t i) { F2 r; r.a = i / P_; r.b = i % P_; return r; }
static inline bool feq(F2 x, F2 y) { return x.a == y.a && x.b == y.b; }
static inline bool fz(F2 x) { return !x.a && !x.b; }
static inline F2 fadd(F2 x, F2 y) { F2 r = { x.a + y.a, x.b + y.b }; if (r.a >= P_) r.a -= P_; if (r.b >= P_) r.b -= P_; return r; }
static inline F2 fneg_(F2 x) { F2 r = { x.a ? P_ - x.a : 0, x.b ? P_ - x.b : 0 }; return r; }
static inline F2 fsub(F2 x, F2 y) { return fadd(x, fneg_(y)); }
static inline F2 fmul(F2 x, F2 y)
{
    uint64_t ac = (uint64_t) x.a * y.a, bd = (uint64_t) x.b * y.b, s = (uint64_t) x.a * y.b + (uint64_t) x.b * y.a;
    F2 r = { (uint32_t)((ac + (uint64_t) P_ * P_ - bd) % P_), (uint32_t)(s % P_) };
    return r;
}
static inline F2 fmk(F2 x, long k) { return fmul(x, f2(k, 0)); }
static inline F2 fsq(F2 x) { return fmul(x, x); }
static uint32_t powmod(uint64_t b, uint64_t e) { uint64_t r = 1; b %= P_; for (; e; e >>= 1, b = b*b % P_) if (e & 1) r = r*b % P_; return r; }
static inline F2 finv(F2 x) { uint64_t n = ((uint64_t) x.a*x.a + (uint64_t) x.b*x.b) % P_; uint64_t i = powmod(n, P_ - 2); return f2((long)(x.a * i % P_), -(long)(x.b * i % P_)); }
static const F2 F0 = {0,0}, F1 = {1,0};
static uint32_t *sqrt_tab;      // index of a root + 1, or 0
static void ref_init(void)
{
    sqrt_tab = calloc(F2N, sizeof *sqrt_tab);
    for (size_t i = 0; i < F2N; ++i) sqrt_tab[f2i(fsq(i2f(i)))] = i + 1;
}
static inline bool fissq(F2 x) { return sqrt_tab[f2i(x)] != 0; }
static inline F2 fsqrt_(F2 x) { return i2f(sqrt_tab[f2i(x)] - 1); }

enum { RV_BAD = 0, RV_OK = 1, RV_DC = 2 };
// y^2 = x^3 + a2 x^2 + a4 x + a6
typedef struct { F2 a2, a4, a6; } W;
typedef struct { F2 x, y; bool inf; } Pt;
static W wmont(F2 A) { W w = { A, F1, F0 }; return w; }
static F2 wrhs(W w, F2 x) { return fadd(fmul(fadd(fmul(fadd(x, w.a2), x), w.a4), x), w.a6); }
static Pt padd(W w, Pt P, Pt Q)
{
    if (P.inf) return Q;
    if (Q.inf) return P;
    F2 l;
    if (feq(P.x, Q.x)) {
        if (fz(fadd(P.y, Q.y))) { Pt o = { F0, F0, true }; return o; }
        l = fmul(fadd(fadd(fmk(fsq(P.x), 3), fmk(fmul(w.a2, P.x), 2)), w.a4), finv(fadd(P.y, P.y)));
    } else l = fmul(fsub(Q.y, P.y), finv(fsub(Q.x, P.x)));
    Pt R; R.inf = false;
    R.x = fsub(fsub(fsub(fsq(l), w.a2), P.x), Q.x);
    R.y = fsub(fmul(l, fsub(P.x, R.x)), P.y);
    return R;
}
static Pt pmul(W w, unsigned long k, Pt P) { Pt R = { F0, F0, true }; for (; k; k >>= 1, P = padd(w, P, P)) if (k & 1) R = padd(w, R, P); return R; }
static F2 wj(W w)
{   // j-invariant from the b-invariants; smooth curves only
    F2 b2 = fmk(w.a2, 4), b4 = fmk(w.a4, 2), b6 = fmk(w.a6, 4);
    F2 c4 = fsub(fsq(b2), fmk(b4, 24));
    F2 c6 = fsub(fadd(fneg_(fmul(fsq(b2), b2)), fmk(fmul(b2, b4), 36)), fmk(b6, 216));
    F2 d = fsub(fmul(fsq(c4), c4), fsq(c6));     // 1728*Delta
    return fmul(fmk(fmul(fsq(c4), c4), 1728), finv(d));
}
static bool wsmooth(W w)
{
    F2 b2 = fmk(w.a2, 4), b4 = fmk(w.a4, 2), b6 = fmk(w.a6, 4);
    F2 c4 = fsub(fsq(b2), fmk(b4, 24));
    F2 c6 = fsub(fadd(fneg_(fmul(fsq(b2), b2)), fmk(fmul(b2, b4), 36)), fmk(b6, 216));
    return !fz(fsub(fmul(fsq(c4), c4), fsq(c6)));
}
// Velu quotient by the subgroup {O, +-K} with K of order l in {2,3}
typedef struct { W to; F2 x0, t, u; } Velu;
static Velu velu(W w, F2 x0, int l)
{
    Velu v; v.x0 = x0;
    F2 d = fadd(fadd(fmk(fsq(x0), 3), fmk(fmul(w.a2, x0), 2)), w.a4);
    if (l == 2) { v.t = d; v.u = F0; }
    else { v.t = fadd(d, d); v.u = fmk(wrhs(w, x0), 4); }
    F2 ww = fadd(v.u, fmul(x0, v.t));
    v.to.a2 = w.a2; v.to.a4 = fsub(w.a4, fmk(v.t, 5));
    v.to.a6 = fsub(fsub(w.a6, fmk(fmul(w.a2, v.t), 4)), fmk(ww, 7));
    return v;
}
static F2 velu_x(const Velu *v, F2 x) { F2 i = finv(fsub(x, v->x0)); return fadd(x, fadd(fmul(v->t, i), fmul(v->u, fsq(i)))); }

// point count class: true iff smooth and exactly (p+1)^2 points
static bool w_killed(W w, int maxpts)
{   // all of the first maxpts points are killed by p+1
    int n = 0;
    for (size_t i = 1; i < F2N && n < maxpts; ++i) {
        F2 x = i2f((i * 7919u) % F2N), r = wrhs(w, x);
        if (!fissq(r)) continue;
        Pt P = { x, fsqrt_(r), false };
        if (!pmul(w, P_ + 1, P).inf) return false;
        ++n;
    }
    return true;
}
static unsigned long w_count(W w)
{
    unsigned long n = 1;
    for (size_t i = 0; i < F2N; ++i) { F2 r = wrhs(w, i2f(i)); n += fz(r) ? 1 : fissq(r) ? 2 : 0; }
    return n;
}
static signed char *good_tab;    // per A: 0 unknown, 1 good, -1 bad
static bool ref_good(F2 A)
{
    if (!good_tab) good_tab = calloc(F2N, 1);
    signed char *g = &good_tab[f2i(A)];
    if (!*g) {
        W w = wmont(A);
        bool ok = wsmooth(w) && w_killed(w, 60);      // a subgroup killed by p+1 that is not everything has index >= 2
        if (F2N < 6000) ok = wsmooth(w) && w_count(w) == (unsigned long)(P_+1)*(P_+1);
        *g = ok ? 1 : -1;
    }
    return *g > 0;
}
// the models of w: (root alpha, u = +-sqrt(a4')), in the order smallest (re,im) first wins
typedef struct { F2 B, r, u; bool amb; } Model;
static bool flt(F2 x, F2 y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }
static int ref_models(W w, F2 root, Model m[6])
{   // root: one root of the cubic
    int n = 0;
    F2 roots[3]; int nr = 0;
    roots[nr++] = root;
    if (!fz(wrhs(w, root))) { fprintf(stderr, "ref: not a root\n"); exit(3); }
    F2 s = fadd(w.a2, roots[0]);                          // x^2 + s x + q
    F2 q = fadd(fmul(s, roots[0]), w.a4);
    F2 disc = fsub(fsq(s), fmk(q, 4));
    if (fissq(disc)) {
        F2 r = fsqrt_(disc), h = finv(f2(2, 0));
        roots[nr++] = fmul(fsub(r, s), h);
        roots[nr++] = fmul(fsub(fneg_(r), s), h);
    }
    for (int k = 0; k < nr; ++k) {
        F2 al = roots[k];
        F2 a2 = fadd(w.a2, fmk(al, 3)), a4 = fadd(fadd(fmk(fsq(al), 3), fmk(fmul(w.a2, al), 2)), w.a4);
        if (!fissq(a4)) continue;
        F2 u = fsqrt_(a4);
        for (int sg = 0; sg < 2; ++sg, u = fneg_(u)) {
            m[n].B = fmul(a2, finv(u)); m[n].r = al; m[n].u = u; m[n].amb = false; ++n;
        }
    }
    return n;
}
static Model ref_canon(W w, F2 root)
{
    Model m[6]; int n = ref_models(w, root, m);
    if (!n) { fprintf(stderr, "ref: no model\n"); exit(3); }
    Model best = m[0];
    for (int i = 1; i < n; ++i) {
        if (flt(m[i].B, best.B)) best = m[i];
        else if (feq(m[i].B, best.B)) best.amb = true;
    }
    int c = 0; for (int i = 0; i < n; ++i) c += feq(m[i].B, best.B);
    best.amb = c > 1;
    return best;
}
// one full step: kernel generated by a point with x-coordinate x of exact order l^e on the
// Montgomery curve A.
typedef struct { bool done, ok; F2 j, B, forbid, ker1; bool amb; W w; F2 root, other; } Step;
static F2 mont_j(F2 A) { return wj(wmont(A)); }
static Step ref_step_raw(F2 A, F2 x, int l)
{
    Step s; memset(&s, 0, sizeof s); s.done = true;
    int e = l == 2 ? MC_E2 : MC_E3;
    W w = wmont(A);
    F2 r = wrhs(w, x);
    if (!fissq(r)) return s;
    Pt K = { x, fsqrt_(r), false };
    unsigned long le1 = 1; for (int i = 0; i < e-1; ++i) le1 *= l;
    Pt T = pmul(w, le1, K);
    if (T.inf || !pmul(w, l, T).inf) return s;
    s.ok = true; s.ker1 = T.x;
    // some other point of order l (its image spans the dual kernel's l-torsion)
    static struct tors { F2 x[2]; int n; } *tt[2];
    if (!tt[l-2]) tt[l-2] = calloc(F2N, sizeof *tt[0]);
    struct tors *t = &tt[l-2][f2i(A)];
    for (size_t i = 0; i < F2N && t->n < 2; ++i) {
        F2 xx = i2f(i), rr = wrhs(w, xx);
        if ((t->n && feq(xx, t->x[0])) || !fissq(rr)) continue;
        Pt Q = { xx, fsqrt_(rr), false };
        if (pmul(w, l, Q).inf) t->x[t->n++] = xx;
    }
    if (t->n < 2) { fprintf(stderr, "ref: torsion not rational\n"); exit(3); }
    F2 other = feq(t->x[0], T.x) ? t->x[1] : t->x[0], root = F0;
    F2 cx = x;
    for (int i = e - 1; i >= 0; --i) {
        Pt C = { cx, fsqrt_(wrhs(w, cx)), false };
        unsigned long m = 1; for (int k = 0; k < i; ++k) m *= l;
        Pt G = pmul(w, m, C);
        Velu v = velu(w, G.x, l);
        if (i) cx = velu_x(&v, cx);
        other = velu_x(&v, other);
        if (l == 3) root = velu_x(&v, root);
        w = v.to;
    }
    s.j = wj(w);
    Model c = ref_canon(w, l == 3 ? root : other);
    s.B = c.B; s.amb = c.amb; s.w = w; s.root = l == 3 ? root : other; s.other = other;
    s.forbid = fmul(fsub(other, c.r), finv(c.u));
    return s;
}
// memo
typedef struct { uint64_t key; Step s; } MemoE;
static MemoE *memo; static size_t memo_cap, memo_n;
static const Step *ref_step(F2 A, F2 x, int l)
{
    uint64_t key = ((uint64_t) f2i(A) * F2N + f2i(x)) * 2 + (l == 3) + 1;
    if (!memo) { memo_cap = 1u << 21; memo = calloc(memo_cap, sizeof *memo); }
    if (memo_n * 2 > memo_cap) { memset(memo, 0, memo_cap * sizeof *memo); memo_n = 0; }
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 43;
    for (;; h = (h + 1) & (memo_cap - 1)) {
        if (memo[h].key == key) return &memo[h].s;
        if (!memo[h].key) break;
    }
    memo[h].key = key; memo[h].s = ref_step_raw(A, x, l); ++memo_n;
    return &memo[h].s;
}
// path of n steps; the first one on the model A as given, the following ones on canonical models
static int ref_path(F2 A, const F2 *x, int n, int l, F2 *jout, F2 *Bout)
{
    int res = RV_OK; F2 forbid = F0; bool havef = false, amb = false;
    for (int i = 0; i < n; ++i) {
        Step s = *ref_step(A, x[i], l);
        if (!s.ok) return RV_BAD;
        if (havef) {
            if (amb) res = RV_DC;
            else if (feq(s.ker1, forbid)) return RV_BAD;
        }
        A = s.B; forbid = s.forbid; amb = s.amb; havef = true;
        if (jout) *jout = s.j;
        if (Bout) *Bout = s.B;
    }
    return res;
}
// is (A, x_0 .. x_{n-1}) with the given Montgomery models E[0..n] a linked, full-order,
// non-backtracking chain?  The models are whatever the code chose.
static int ref_chain(const F2 *E, const F2 *x, int n, int l, int *where)
{
    int res = RV_OK;
    for (int i = 0; i < n; ++i) {
        *where = i;
        Step s = *ref_step(E[i], x[i], l);
        if (!s.ok) return RV_BAD;
        Model m[6]; int k = ref_models(s.w, s.root, m), hits = 0; F2 fb = F0; bool multi = false;
        for (int q = 0; q < k; ++q) if (feq(m[q].B, E[i+1])) {
            F2 f = fmul(fsub(s.other, m[q].r), finv(m[q].u));
            if (hits++ && !feq(f, fb)) multi = true;
            fb = f;
        }
        if (!hits) return RV_BAD;               // E[i+1] is not the codomain
        if (i + 1 < n) {
            Step t = *ref_step(E[i+1], x[i+1], l);
            if (!t.ok) { *where = i+1; return RV_BAD; }
            if (multi) res = RV_DC;
            else if (feq(t.ker1, fb)) return RV_BAD;
        }
    }
    return res;
}
// a name for the kernel generated by x on A: the least x-coordinate of a generator
static size_t ref_kernel_id(F2 A, F2 x, int l)
{
    W w = wmont(A); Pt K = { x, fsqrt_(wrhs(w, x)), false }, Q = K; size_t best = f2i(x);
    unsigned long o = 1; for (int i = 0; i < (l == 2 ? MC_E2 : MC_E3); ++i) o *= l;
    for (unsigned long k = 1; k < o; ++k, Q = padd(w, Q, K)) if (k % l && f2i(Q.x) < best) best = f2i(Q.x);
    return best;
}
// encodings
static void ref_enc(F2 x, unsigned char *o) { for (int i = 0; i < MC_FP_BYTES; ++i) { o[i] = x.a >> 8*i; o[MC_FP_BYTES+i] = x.b >> 8*i; } }
static F2 ref_dec(const unsigned char *o, bool *canonical)
{
    uint64_t a = 0, b = 0;
    for (int i = 0; i < MC_FP_BYTES; ++i) { a |= (uint64_t) o[i] << 8*i; b |= (uint64_t) o[MC_FP_BYTES+i] << 8*i; }
    if (canonical && (a >= P_ || b >= P_)) *canonical = false;
    F2 r = { a % P_, b % P_ }; return r;
}
#include "refkeccak.h"
#endif
