"""Textbook reference over the real primes: F_p^2 with Python integers, x-only arithmetic, one 2- or
3-isogeny at a time.  Independent of the library: other isogeny degrees, other strategies, affine
formulas.  Base points are the published ones (realparams.json)."""
import json, os, hashlib
from functools import lru_cache
EXP = {434: (216, 137), 503: (250, 159), 610: (305, 192), 751: (372, 239)}
PB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "realparams.json")))

class F:
    def __init__(s, bits):
        s.bits = bits; s.e2, s.e3 = EXP[bits]; s.p = 2**s.e2 * 3**s.e3 - 1; s.nb = (s.p.bit_length() + 7) // 8
    def mul(s, x, y):
        a, b = x; c, d = y; p = s.p
        t = a*c; u = b*d
        return ((t - u) % p, ((a+b)*(c+d) - t - u) % p)
    def sq(s, x):
        a, b = x; return ((a+b)*(a-b) % s.p, 2*a*b % s.p)
    def add(s, x, y): return ((x[0]+y[0]) % s.p, (x[1]+y[1]) % s.p)
    def sub(s, x, y): return ((x[0]-y[0]) % s.p, (x[1]-y[1]) % s.p)
    def neg(s, x): return (-x[0] % s.p, -x[1] % s.p)
    def k(s, x, c): return (x[0]*c % s.p, x[1]*c % s.p)
    def inv(s, x):
        n = pow(x[0]*x[0] + x[1]*x[1], -1, s.p); return (x[0]*n % s.p, -x[1]*n % s.p)
    def div(s, x, y): return s.mul(x, s.inv(y))
    def enc(s, x): return x[0].to_bytes(s.nb, "little") + x[1].to_bytes(s.nb, "little")
    def dec(s, b): return (int.from_bytes(b[:s.nb], "little"), int.from_bytes(b[s.nb:2*s.nb], "little"))
    def issq(s, x): n = (x[0]*x[0] + x[1]*x[1]) % s.p; return n == 0 or pow(n, (s.p-1)//2, s.p) == 1
    def sqrt(s, x):
        p = s.p
        if x == (0, 0): return x
        if not s.issq(x): return None
        def r(n): return pow(n, (p+1)//4, p)
        if x[1] == 0:
            t = r(x[0])
            return (t, 0) if t*t % p == x[0] else (0, r(-x[0] % p))
        n = r((x[0]*x[0] + x[1]*x[1]) % p); h = pow(2, -1, p)
        t = (x[0] + n)*h % p
        if pow(t, (p-1)//2, p) != 1: t = (x[0] - n)*h % p
        a = r(t); b = x[1]*pow(2*a, -1, p) % p
        assert s.sq((a, b)) == (x[0] % p, x[1] % p)
        return (a, b)
    # ---- Montgomery curves y^2 = x^3 + A x^2 + x, projective x-only (A as affine a24 = (A+2)/4) ----
    def a24(s, A): return s.mul(s.add(A, (2, 0)), (pow(4, -1, s.p), 0))
    def dbl(s, P, a24):
        X, Z = P; t0 = s.sq(s.add(X, Z)); t1 = s.sq(s.sub(X, Z)); d = s.sub(t0, t1)
        return (s.mul(t0, t1), s.mul(d, s.add(t1, s.mul(a24, d))))
    def dadd(s, P, Q, D):
        a = s.mul(s.add(P[0], P[1]), s.sub(Q[0], Q[1])); b = s.mul(s.sub(P[0], P[1]), s.add(Q[0], Q[1]))
        return (s.mul(D[1], s.sq(s.add(a, b))), s.mul(D[0], s.sq(s.sub(a, b))))
    def tpl(s, P, a24): return s.dadd(s.dbl(P, a24), P, P)
    def isO(s, P): return P[1] == (0, 0)
    def ladder3(s, k, P, Q, D, A):
        """x(P + [k]Q) from x(P), x(Q), x(P-Q)"""
        a24 = s.a24(A); R0, R1, R2 = (Q, (1, 0)), (P, (1, 0)), (D, (1, 0))
        while k:
            # R0 = [2^i]Q, R1 = P + [k mod 2^i]Q, R2 = R1 - R0
            if k & 1: R1 = s.dadd(R0, R1, R2)
            else:     R2 = s.dadd(R0, R2, R1)
            R0 = s.dbl(R0, a24); k >>= 1
        return R1
    def aff(s, P): return s.div(P[0], P[1])
    def chain(s, A, K, l, e, pts):
        """quotient by <K>, K=(X:Z) of exact order l^e; pushes pts (affine x); returns A', pts'"""
        st = {"A": A, "a24": s.a24(A)}
        aux = [(x, (1, 0)) for x in pts]
        def rec(stack, n):
            # stack[-1] has order l^n; all of stack are pushed along
            if n == 1:
                G = s.aff(stack.pop())
                if l == 2:
                    # kernel (xk,0), xk != 0:  x -> x(x xk - 1)/(x - xk)
                    assert G != (0, 0)
                    st["A"] = s.k(s.sub((1, 0), s.k(s.sq(G), 2)), 2)
                    f = lambda P: (s.mul(P[0], s.sub(s.mul(P[0], G), P[1])), s.mul(P[1], s.sub(P[0], s.mul(G, P[1]))))
                else:
                    st["A"] = s.mul(s.add(s.sub(s.mul(st["A"], G), s.k(s.sq(G), 6)), (6, 0)), G)
                    f = lambda P: (s.mul(P[0], s.sq(s.sub(s.mul(P[0], G), P[1]))), s.mul(P[1], s.sq(s.sub(P[0], s.mul(G, P[1])))))
                st["a24"] = s.a24(st["A"])
                for L in (stack, aux):
                    for i in range(len(L)): L[i] = f(L[i])
                return
            h = n // 2; Q = stack[-1]
            for _ in range(h): Q = s.dbl(Q, st["a24"]) if l == 2 else s.tpl(Q, st["a24"])
            stack.append(Q); rec(stack, n - h)
            rec(stack, h)
        stack = [K]; rec(stack, e)
        return st["A"], [s.aff(P) for P in aux]
    def j(s, A):
        a2 = s.sq(A); return s.div(s.k(s.mul(s.sq(s.sub(a2, (3, 0))), s.sub(a2, (3, 0))), 256), s.sub(a2, (4, 0)))
    def coeff(s, a, b, c):
        """A with x(P)=a, x(Q)=b, x(P-Q)=c"""
        t = s.sub((1, 0), s.add(s.add(s.mul(a, b), s.mul(a, c)), s.mul(b, c)))
        return s.sub(s.div(s.sq(t), s.k(s.mul(s.mul(a, b), c), 4)), s.add(s.add(a, b), c))

class Ref:
    def __init__(s, bits, comp=False):
        s.f = F(bits); g = PB["%d%s" % (bits, "_compressed" if comp else "")]
        pr = lambda l: [(int(l[2*i], 16), int(l[2*i+1], 16)) for i in range(3)]
        s.A, s.B = pr(g["A_gen"]), pr(g["B_gen"]); s.bits = bits
    def pubA(s, a):
        """curve and images of Bob's basis under Alice's isogeny, up to isomorphism"""
        f = s.f; K = f.ladder3(a, *s.A, (6, 0)); return f.chain((6, 0), K, 2, f.e2, s.B)
    def pubB(s, b):
        f = s.f; K = f.ladder3(b, *s.B, (6, 0)); return f.chain((6, 0), K, 3, f.e3, s.A)
    def shared(s, a, b, pubA=None):
        f = s.f; EA, im = pubA or s.pubA(a)
        K = f.ladder3(b, *im, EA); Ej, _ = f.chain(EA, K, 3, f.e3, []); return f.enc(f.j(Ej))
    def same_upto_iso(s, A, xs, ys):
        """ys are the images of xs under an isomorphism from y^2=x^3+Ax^2+x to a Montgomery curve"""
        f = s.f
        if ys[0] == ys[1] or xs[0] == xs[1]: return False
        u = f.div(f.sub(xs[0], xs[1]), f.sub(ys[0], ys[1])); r = f.sub(xs[0], f.mul(u, ys[0]))
        if f.add(f.mul(u, ys[2]), r) != xs[2]: return False
        fr = f.add(f.mul(f.sq(r), f.add(r, A)), r)
        if fr != (0, 0): return False
        d = f.add(f.add(f.k(f.sq(r), 3), f.k(f.mul(A, r), 2)), (1, 0))
        if d != f.sq(u): return False
        return f.coeff(*ys) == f.div(f.add(f.k(r, 3), A), u)
def H(n, *parts): return hashlib.shake_256(b"".join(parts)).digest(n)
