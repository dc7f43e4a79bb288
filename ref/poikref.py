"""Reference verifier of the proof system over the real primes, on Python integers (realref.F)."""
from realref import F, H
MEMO = {}
class PoIK:
    def __init__(s, bits): s.f = F(bits); s.p = s.f.p
    # ---- models ----
    def roots(s, A):
        f = s.f; d = f.sqrt(f.sub(f.sq(A), (4, 0)))
        if d is None: return []
        h = (pow(2, -1, s.p), 0)
        return [f.mul(f.sub(d, A), h), f.mul(f.sub(f.neg(d), A), h)]
    def models(s, A):
        """all (B, r, u): x -> (x-r)/u maps y^2=x^3+Ax^2+x to the model B (u a square up to sign is not required)"""
        f = s.f; L = [(A, (0, 0), (1, 0)), (f.neg(A), (0, 0), f.neg((1, 0)))]
        for r in s.roots(A):
            u = f.sqrt(f.sub(f.sq(r), (1, 0)))
            for v in (u, f.neg(u)): L.append((f.div(f.add(A, f.k(r, 3)), v), r, v))
        return L
    def canon(s, A):
        if A not in MEMO: MEMO[A] = min(s.models(A))
        return MEMO[A]
    def tr(s, m, x): return s.f.div(s.f.sub(x, m[1]), m[2])
    # ---- points ----
    def rhs(s, A, x): f = s.f; return f.mul(x, f.add(f.mul(x, f.add(x, A)), (1, 0)))
    def point(s, A, k, twist=False):
        while True:
            k += 1; x = (int.from_bytes(H(128, b"x%d" % k), "little") % s.p, int.from_bytes(H(128, b"y%d" % k), "little") % s.p)
            if s.f.issq(s.rhs(A, x)) != twist: return x, k
    def times(s, P, A, n2, n3):
        a = s.f.a24(A)
        for _ in range(n2): P = s.f.dbl(P, a)
        for _ in range(n3): P = s.f.tpl(P, a)
        return P
    def good(s, A):
        """supersingular with (p+1)^2 points"""
        f = s.f
        if f.sq(A) == (4, 0): return False
        k = 0
        for _ in range(3):
            x, k = s.point(A, k)
            if not f.isO(s.times((x, (1, 0)), A, f.e2, f.e3)): return False
        return True
    def exp(s, l): return s.f.e2 if l == 2 else s.f.e3
    def mulx(s, P, A, l, n): return s.times(P, A, n, 0) if l == 2 else s.times(P, A, 0, n)
    def eqx(s, P, Q): return s.f.mul(P[0], Q[1]) == s.f.mul(Q[0], P[1])
    def full(s, A, l, k, want=None, avoid=None):
        """affine x of a point of order l^e (above / not above the order-l point given)"""
        f = s.f; e = s.exp(l)
        while True:
            x, k = s.point(A, k); P = s.times((x, (1, 0)), A, 0 if l == 2 else f.e2, f.e3 if l == 2 else 0)
            if f.isO(P): continue
            P = (f.aff(P), (1, 0)); T = s.mulx(P, A, l, e - 1)
            if f.isO(T): continue
            if want is not None and not s.eqx(T, (want, (1, 0))): continue
            if avoid is not None and s.eqx(T, (avoid, (1, 0))): continue
            return P[0], k
    # ---- one step and paths ----
    def step(s, A, x, l):
        """None if x is not of exact order l^e, else (A', forbidden order-l x on A', order-l x of the kernel)"""
        key = (A, x, l)
        if key in MEMO: return MEMO[key]
        MEMO[key] = r = s.step_(A, x, l); return r
    def step_(s, A, x, l):
        f = s.f; P = (x, (1, 0)); T = s.mulx(P, A, l, s.exp(l) - 1)
        if f.isO(T) or not f.isO(s.mulx(T, A, l, 1)): return None
        ker = f.aff(T)
        if l == 2:
            if ker == (0, 0): m = s.models(A)[2]; A, P = m[0], (s.tr(m, x), (1, 0))
            B, _ = f.chain(A, P, 2, f.e2, []); return B, (0, 0), ker
        k = 0
        while True:
            y, k = s.full(A, 3, k); U = s.mulx((y, (1, 0)), A, 3, f.e3 - 1)
            if not s.eqx(U, T): break
        B, (b,) = f.chain(A, P, 3, f.e3, [f.aff(U)]); return B, b, ker
    def path(s, A, xs, l):
        """end curve of a genuine path, or None"""
        fb = None
        for i, x in enumerate(xs):
            if i:
                m = s.canon(A); A = m[0]; fb = s.tr(m, fb)
            r = s.step(A, x, l)
            if r is None or (fb is not None and r[2] == fb): return None
            A, fb = r[0], r[1]
        return A
    # ---- hashes ----
    def commit(s, r, A, n): return H(n, b"\x02", r, s.f.enc(s.f.j(A)))
    def challenge(s, A0, A1, cs, n):
        d = H(64 + 2*n, b"\x01", s.f.enc(s.f.j(A0)), s.f.enc(s.f.j(A1)), *[x for c in cs for x in c]); out = []
        for b in d:
            if b >= 243: continue
            for _ in range(5): out.append(b % 3 if b % 3 < 2 else -1); b //= 3
        assert len(out) >= n; return out[:n]
    def dec(s, b):
        x = s.f.dec(b); return x if x[0] < s.p and x[1] < s.p else None
    def opening(s, P, r):
        """(h2, h3) that a response opens to, or None; 'dc' for non-canonical encodings"""
        d = [s.dec(x) for x in r["x"]]; E0, E1 = s.dec(P["E0"]), s.dec(P["E1"]); n = P["hash"]
        if None in d or E0 is None or E1 is None: return "dc"
        if r["tag"] in (-1, 1):
            B = s.path(E0 if r["tag"] < 0 else E1, d, 3)
            if B is None: return None
            return (s.commit(r["a"], B, n), r["b"]) if r["tag"] < 0 else (r["a"], s.commit(r["b"], B, n))
        E2 = s.dec(r["E2"])
        if E2 is None: return "dc"
        if not s.good(E2): return None
        B = s.path(E2, d, 2)
        return None if B is None else (s.commit(r["a"], E2, n), s.commit(r["b"], B, n))
    def verify(s, P):
        E0, E1 = s.dec(P["E0"]), s.dec(P["E1"])
        if E0 is None or E1 is None: return "dc"
        if not s.good(E0) or not s.good(E1): return False
        cs = [s.opening(P, r) for r in P["resp"]]
        if None in cs: return False
        if "dc" in cs: return "dc"
        return s.challenge(E0, E1, cs, len(cs)) == [r["tag"] for r in P["resp"]]
    # ---- discrete logarithms in <G>, order 2^n (affine points, None is the neutral element) ----
    def lift(s, A, x): return x, s.f.sqrt(s.rhs(A, x))
    def padd(s, A, P, Q):
        f = s.f
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if f.add(P[1], Q[1]) == (0, 0): return None
            l = f.div(f.add(f.add(f.k(f.sq(P[0]), 3), f.k(f.mul(A, P[0]), 2)), (1, 0)), f.k(P[1], 2))
        else: l = f.div(f.sub(Q[1], P[1]), f.sub(Q[0], P[0]))
        x = f.sub(f.sub(f.sq(l), A), f.add(P[0], Q[0])); return x, f.sub(f.mul(l, f.sub(P[0], x)), P[1])
    def pmul(s, A, k, P):
        R = None
        while k:
            if k & 1: R = s.padd(A, R, P)
            P = s.padd(A, P, P); k >>= 1
        return R
    def dlog2(s, A, G, T, n):
        if n == 1: return 0 if T is None else 1 if T == G else None
        h = n // 2; g, t = G, T
        for _ in range(n - h): g, t = s.padd(A, g, g), s.padd(A, t, t)
        d0 = s.dlog2(A, g, t, h)
        if d0 is None: return None
        m = s.pmul(A, d0, G); T = s.padd(A, T, None if m is None else (m[0], s.f.neg(m[1])))
        for _ in range(h): G = s.padd(A, G, G)
        d1 = s.dlog2(A, G, T, n - h)
        return None if d1 is None else d0 + (d1 << h)
