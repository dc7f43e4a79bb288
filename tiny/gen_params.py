#!/usr/bin/env python3
"""Generate tiny_params.h for p = 2^e2 * 3^e3 - 1 (plain affine arithmetic, independent of /repo)."""
import sys
def gen(e2, e3):
    p = 2**e2 * 3**e3 - 1
    assert all(p % d for d in range(2, int(p**.5)+1)), "p not prime"
    add = lambda a, b: ((a[0]+b[0]) % p, (a[1]+b[1]) % p)
    sub = lambda a, b: ((a[0]-b[0]) % p, (a[1]-b[1]) % p)
    mul = lambda a, b: ((a[0]*b[0]-a[1]*b[1]) % p, (a[0]*b[1]+a[1]*b[0]) % p)
    def inv(a):
        n = pow(a[0]*a[0]+a[1]*a[1], -1, p)
        return (a[0]*n % p, -a[1]*n % p)
    A = (6 % p, 0); one = (1, 0)
    sq = {}
    for i in range(p):
        for j in range(p):
            sq.setdefault(mul((i, j), (i, j)), (i, j))
            if len(sq) > (p*p)//2: break
    def rhs(x): return mul(add(mul(add(x, A), x), one), x)
    def ec_add(P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if add(P[1], Q[1]) == (0, 0): return None
            x = P[0]
            lam = mul(add(add(mul((3, 0), mul(x, x)), mul((2, 0), mul(A, x))), one), inv(add(P[1], P[1])))
        else:
            lam = mul(sub(Q[1], P[1]), inv(sub(Q[0], P[0])))
        x3 = sub(sub(sub(mul(lam, lam), A), P[0]), Q[0])
        return (x3, sub(mul(lam, sub(P[0], x3)), P[1]))
    neg = lambda P: P and (P[0], ((-P[1][0]) % p, (-P[1][1]) % p))
    def smul(k, P):
        R = None
        while k:
            if k & 1: R = ec_add(R, P)
            P = ec_add(P, P); k >>= 1
        return R
    def points():
        for i in range(p):
            for j in range(p):
                x = ((i*7+3) % p, (j*5+1) % p); r = rhs(x)
                if r in sq: yield (x, sq[r])
    cofA, cofB = 3**e3, 2**e2
    PA = QA = PB = QB = None
    def top(P, l, e): return smul(l**(e-1), P)
    for X in points():
        T = smul(cofA, X)
        t = top(T, 2, e2) if T else None
        if t:
            if t[0] == (0, 0):
                if QA is None: QA = T
            elif PA is None: PA = T
        T = smul(cofB, X)
        t = top(T, 3, e3) if T else None
        if t:
            if PB is None: PB = T
            elif QB is None and t[0] != top(PB, 3, e3)[0]: QB = T
        if PA and QA and PB and QB: break
    RA, RB = ec_add(PA, neg(QA)), ec_add(PB, neg(QB))
    R = 2**64 % p
    m = lambda v: v*R % p
    def arr(*pts): return ", ".join(f"{m(P[0][0])}, {m(P[0][1])}" for P in pts)
    nbits = p.bit_length()
    def strat(n):
        # a balanced strategy (a valid, non-trivial one) for n leaves
        if n <= 1: return []
        k = max(1, (n*2)//5) if n > 3 else 1
        k = n//2 if n > 3 else k
        return [k] + strat(n-k) + strat(k)
    def check(n, s):
        # replay of the traversal in the code: consistent and never more than 8 stored points
        idx, pts, ii = 0, [], 0
        for row in range(1, n):
            while idx < n-row:
                pts.append(idx); mm = s[ii]; ii += 1; idx += mm
                assert len(pts) <= 8
            assert idx == n-row
            idx = pts.pop()
        assert ii == len(s)
    sA, sB = strat(e2//2), strat(e3)
    check(e2//2, sA); check(e3, sB)
    b3 = (3**e3).bit_length()
    ska, skb = (e2+7)//8, (b3-1+7)//8
    o = []
    d = lambda k, v: o.append(f"#define {k} {v}")
    o.append("#ifndef TINY_PARAMS_H\n#define TINY_PARAMS_H")
    d("MC_P", p); d("MC_E2", e2); d("MC_E3", e3); d("MC_3E3", 3**e3); d("MC_NBITS", nbits)
    d("MC_FP_BYTES", (nbits+7)//8); d("MC_OBOB_BITS", b3)
    d("MC_MASK_ALICE", hex((1 << (e2-8*(ska-1)))-1)); d("MC_MASK_BOB", hex((1 << (b3-1-8*(skb-1)))-1))
    d("MC_SKA_BYTES", ska); d("MC_SKB_BYTES", skb)
    d("MC_R1", R); d("MC_R2", R*R % p); d("MC_RINV", pow(R, -1, p))
    d("MC_STRAT_A", ", ".join(map(str, sA)) or 0); d("MC_STRAT_B", ", ".join(map(str, sB)) or 0)
    d("MC_A_GEN", arr(PA, QA, RA)); d("MC_B_GEN", arr(PB, QB, RB))
    f = lambda v: f"{v[0]}, {v[1]}"
    d("MC_PA", f"{{{{{f(PA[0])}}},{{{f(PA[1])}}}}}"); d("MC_QA", f"{{{{{f(QA[0])}}},{{{f(QA[1])}}}}}")
    d("MC_PB", f"{{{{{f(PB[0])}}},{{{f(PB[1])}}}}}"); d("MC_QB", f"{{{{{f(QB[0])}}},{{{f(QB[1])}}}}}")
    o.append("#endif\n")
    return "\n".join(o)
if __name__ == "__main__":
    print(gen(int(sys.argv[1]), int(sys.argv[2])))
