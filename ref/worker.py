"""worker.py <mode> <bits> <shard> <nshards> <size> <fast exe> [<generic exe>]
Drives the executor h_real over a real parameter set and compares every answer with the textbook
reference.  Prints S/X/V/DONE lines for vlib."""
import sys, os, subprocess, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from realref import *
MODE, BITS, SH, NS, SIZE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
COMP = MODE in ("c17s", "c17k")
st = {"states": 0, "trans": 0, "exec": 0, "nontriv": 0}
nv = [0]
def bad(*a):
    nv[0] += 1
    if nv[0] <= 20: print("V p%d%s: %s" % (BITS, " compressed" if COMP else "", " ".join(map(str, a))))
class Ex:
    def __init__(s, exe):
        s.exe = exe; s.start()
    def start(s):
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        s.info = list(map(int, s.p.stdout.readline().split()[1:]))
    def __call__(s, cmd):
        st["exec"] += 1; st["trans"] += 1
        try:
            s.p.stdin.write(cmd + "\n"); s.p.stdin.flush(); l = s.p.stdout.readline()
        except BrokenPipeError: l = ""
        if not l:
            bad("the library ended abnormally (status %s) on %s" % (s.p.wait(), cmd[:200])); s.start(); return None
        if "OVERRUN" in l: bad("writes outside its output buffers on", cmd[:200])
        return l.split()
exes = [Ex(x) for x in sys.argv[6:]]
fast = exes[0]
SKB_, PKB_, CB, CTB, SA, SB, SPK, SJ = fast.info
R = Ref(BITS, COMP); f = R.f; p = f.p
MSG = {434: 16, 503: 24, 610: 24, 751: 32}[BITS]
MASK_A = {434: 0xFF, 503: 0x03, 610: 0x01, 751: 0x0F}[BITS]
MASK_B = {434: 0x01, 503: 0x0F, 610: 0xFF, 751: 0x03}[BITS]
M3, M2 = {434: (0x7F, 0x00), 503: (0xFF, 0x03), 610: (0xFF, 0x07), 751: (0xFF, 0x00)}[BITS]
BA = f.e2
BB = (3**f.e3).bit_length() - 1
def le(x, n): return x.to_bytes(n, "little")
def num(b): return int.from_bytes(b, "little")
def structured(bits):
    ones = 2**bits - 1
    L = [0, 1, ones, 2, 3, ones - 1, 2**(bits - 1), num(b"\x55"*64) & ones, num(b"\xaa"*64) & ones, 2**(bits - 1) - 1, 5, ones >> 2]
    for k in range(3): L.append(num(hashlib.shake_128(b"k%d" % k).digest(64)) & ones)
    for i in range(2, bits): L += [2**i, 2**i - 1, ones ^ (2**i)]
    for i in range(0, bits - 8, 3): L.append((num(hashlib.shake_128(b"w%d" % i).digest(64)) & ones) >> i)
    out = []
    for x in L:
        if x not in out: out.append(x)
    return out
def pts(b): return [f.dec(b[i*2*f.nb:]) for i in range(3)]
def key_pairs(n):
    a, b = structured(BA), structured(BB)
    # interleave so that short prefixes mix special and dense keys
    def order(l, s):
        head = l[:15]; tail = l[15:]; step = s
        while tail and any(len(tail) % q == 0 and step % q == 0 for q in (2, 3, 5, 7, 11, 13)): step += 1
        return head + [tail[(i*step) % len(tail)] for i in range(len(tail))]
    a, b = order(a, 101), order(b, 67)
    return [(a[i % len(a)], b[(i*7 + 3) % 15 if i < 15 else i % len(b)]) for i in range(n)]
def mine(l): return [x for i, x in enumerate(l) if i % NS == SH]

def c12():
    for a, b in mine(key_pairs(SIZE)):
        cmd = "S %s %s" % (le(a, SA).hex(), le(b, SB).hex())
        rs = [e(cmd) for e in exes]
        if None in rs: continue
        st["states"] += 1; st["nontriv"] += 1
        r = rs[0]
        if any(x != r for x in rs): bad("portable and assembly builds differ for keys %x, %x" % (a, b))
        pa, pb, sa, sb = (bytes.fromhex(x) for x in r[2:6])
        if r[1] != "0": bad("key exchange reports failure for keys %x, %x" % (a, b))
        EA, ia = R.pubA(a); EB, ib = R.pubB(b)
        if not R.same_upto_iso(EA, ia, pts(pa)): bad("A's public key of %x is not the image of B's basis" % a)
        if not R.same_upto_iso(EB, ib, pts(pb)): bad("B's public key of %x is not the image of A's basis" % b)
        w = R.shared(a, b, (EA, ia))
        if sa != w: bad("A's shared secret for keys %x, %x is not the invariant of the common codomain" % (a, b))
        if sb != w: bad("B's shared secret for keys %x, %x is not the invariant of the common codomain" % (a, b))
    print("X p%d: secret key pairs such as %x.., %x.." % ((BITS,) + key_pairs(1)[0]))

def messages(n):
    L = [bytes(MSG), b"\xff"*MSG, bytes([1]) + bytes(MSG-1), bytes(MSG-1) + b"\x80"]
    return (L + [hashlib.shake_128(b"m%d" % i).digest(MSG) for i in range(n)])[:n]
def keyscripts(n, kl):
    L = []
    for i in range(n):
        k = [b"\0"*kl, b"\xff"*kl, b"\x01" + b"\0"*(kl-1)][i] if i < 3 else hashlib.shake_128(b"key%d" % i).digest(kl)
        L.append(hashlib.shake_128(b"seed%d" % i).digest(MSG) + k)
    return L
def honest(ex, r, m):
    o = ex("K %s %s" % (r.hex(), m.hex()))
    if not o: return None
    if o[1] != "0": bad("key generation, encapsulation or decapsulation returns an error for random bytes %s, message %s" % (r.hex(), m.hex())); return None
    return tuple(bytes.fromhex(x) for x in o[2:7])
def c13():
    ks, ms = keyscripts(SIZE, SB), messages(SIZE)
    exp = [SKB_ == MSG + SB + 6*f.nb, PKB_ == 6*f.nb, CTB == 6*f.nb + MSG, CB == MSG, SJ == 2*f.nb]
    if not all(exp): bad("sizes differ from the specification:", fast.info)
    for i, (r, m) in enumerate(mine(list(zip(ks, ms)))):
        hs = [honest(e, r, m) for e in exes]
        if None in hs: continue
        st["states"] += 1; st["nontriv"] += 1
        if any(h != hs[0] for h in hs): bad("portable and assembly builds differ for random bytes %s" % r.hex())
        pk, sk, ct, ss, s2 = hs[0]
        s, b, pk2 = sk[:MSG], num(sk[MSG:MSG+SB]), sk[MSG+SB:]
        if pk2 != pk: bad("the secret key does not embed its public key")
        if s not in r: bad("the rejection seed is not taken from the random source")
        if b >= 2**BB or sk[MSG:MSG+SB][:-1] not in r: bad("secret scalar %x is not the masked random value" % b)
        EB, ib = R.pubB(b)
        if not R.same_upto_iso(EB, ib, pts(pk)): bad("public key of %x is not the image of the basis" % b)
        e = bytearray(H(SA, m, pk)); e[-1] &= MASK_A; a = num(e)
        EA, ia = R.pubA(a)
        o = fast("S %s %s" % (bytes(e).hex(), le(b, SB).hex()))
        if o and bytes.fromhex(o[2]) != ct[:6*f.nb]: bad("first part of the ciphertext is not the public key of G(m||pk)")
        if not R.same_upto_iso(EA, ia, pts(ct)): bad("first part of the ciphertext is not the image of the basis under the isogeny of G(m||pk)")
        j = R.shared(a, b, (EA, ia))
        if ct[6*f.nb:] != bytes(x ^ y for x, y in zip(m, H(MSG, j))): bad("second part of the ciphertext is not m xor H(j) for message %s" % m.hex())
        if ss != H(CB, m, ct): bad("shared secret is not H(m||ct) for message %s" % m.hex())
        if s2 != ss: bad("decapsulation differs from encapsulation for random bytes %s, message %s" % (r.hex(), m.hex()))

def c14():
    ks, ms = keyscripts(12, SB), messages(12)
    L = []
    for q, (r, m) in list(enumerate(zip(ks, ms)))[3:3 + SIZE]:
        h = honest(fast, r, m)
        if not h: continue
        pk, sk, ct, ss, s2 = h; o = honest(fast, r, ms[(q + 1) % 12]); octt = o[2]; nb = f.nb
        T = [bytes(ct[:i]) + bytes([ct[i] ^ x]) + ct[i+1:] for i in range(CTB) for x in ((1, 128) if q == 3 else (1 << (i*5 + q) % 8,))]
        T += [bytes([ct[0] ^ 1]) + ct[1:i] + bytes([ct[i] ^ 1]) + ct[i+1:] for i in range(1, CTB, 7)]     # two changes that cancel in a sum
        for i in range(6):                       # the same residue, written differently
            v = num(ct[i*nb:(i+1)*nb])
            for k in (1, 2):
                if v + k*p < 256**nb: T.append(ct[:i*nb] + le(v + k*p, nb) + ct[(i+1)*nb:])
        P = [ct[i*2*nb:(i+1)*2*nb] for i in range(3)]; c1 = ct[6*nb:]
        for x, y, z in ((1, 0, 2), (0, 2, 1), (2, 1, 0), (0, 0, 2), (1, 1, 2), (0, 1, 0), (0, 1, 1), (1, 2, 0)): T.append(P[x] + P[y] + P[z] + c1)
        T += [octt[:6*nb] + c1, ct[:6*nb] + octt[6*nb:], pk + c1, bytes(CTB), b"\xff"*CTB, bytes(6*nb) + c1, ct[:6*nb] + bytes(MSG), ct[:6*nb] + c1[::-1]]
        for i in range(3): T.append(b"".join(bytes(2*nb) if k == i else P[k] for k in range(3)) + c1)
        for i in range(3):
            x = f.dec(P[i]); T.append(b"".join(f.enc((x[0], -x[1] % p)) if k == i else P[k] for k in range(3)) + c1)
        T.append(b"".join(f.enc((f.dec(x)[0], -f.dec(x)[1] % p)) for x in P) + c1)                     # conjugate key
        A = f.coeff(*pts(ct))
        L += [(t, sk, m, A) for t in T if t != ct]
    for e in exes:
        for t, sk, m, A in (mine(L) if e is fast else mine(L)[::max(1, len(mine(L)) // 24)]):
            o = e("D %s %s" % (t.hex(), sk.hex()))
            if not o: continue
            st["states"] += 1
            v = bytes.fromhex(o[2])
            if o[1] != "0": bad("decapsulation of an altered ciphertext returns %s: %s" % (o[1], t.hex()))
            st["nontriv"] += 1
            if v != H(CB, sk[:MSG], t): bad("decapsulation of an altered ciphertext returns %s: %s" % ("H(m||ct)" if v == H(CB, m, t) else "a key that is not H(s||ct)", t.hex()))

# full points on d y^2 = x^3 + A x^2 + x
class Cv:
    def __init__(s, A, x0):
        s.A = A; s.d = f.add(f.mul(f.sq(x0), f.add(x0, A)), x0); s.base = (x0, (1, 0))
    def lift(s, x):
        y = f.sqrt(f.div(f.add(f.mul(f.sq(x), f.add(x, s.A)), x), s.d)); return None if y is None else (x, y)
    def neg(s, P): return P if P is None else (P[0], f.neg(P[1]))
    def add(s, P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == (0, 0): return None
            n = f.add(f.add(f.k(f.sq(P[0]), 3), f.k(f.mul(s.A, P[0]), 2)), (1, 0)); l = f.div(n, f.mul(s.d, f.k(P[1], 2)))
        else: l = f.div(f.sub(Q[1], P[1]), f.sub(Q[0], P[0]))
        x = f.sub(f.mul(s.d, f.sq(l)), f.add(f.add(s.A, P[0]), Q[0]))
        return (x, f.sub(f.mul(l, f.sub(P[0], x)), P[1]))
    def mul(s, k, P):
        R_ = None
        if k < 0: k, P = -k, s.neg(P)
        while k:
            if k & 1: R_ = s.add(R_, P)
            P = s.add(P, P); k >>= 1
        return R_
def oracle15(a, b, c):
    """1 = must be refused"""
    A = f.coeff(a, b, c)
    if A in ((2, 0), (p - 2, 0)): return 1
    t = []
    for x in (a, b):
        P = (x, (1, 0))
        for _ in range(f.e3 - 1): P = f.tpl(P, f.a24(A))
        if f.isO(P): return 1
        if not f.isO(f.tpl(P, f.a24(A))): return 1
        t.append(f.aff(P))
    return int(t[0] == t[1])
def c15():
    L = []
    keys = [x for x in structured(BA)][:SIZE]
    e3 = f.e3
    for q, a in enumerate(keys):
        o = fast("S %s %s" % (le(a, SA).hex(), le(1, SB).hex()))
        if not o: continue
        xs = pts(bytes.fromhex(o[2])); A = f.coeff(*xs); C = Cv(A, xs[0]); P = C.base; Q = C.lift(xs[1])
        if C.add(P, C.neg(Q))[0] != xs[2]: Q = C.neg(Q)
        if Q is None or C.add(P, C.neg(Q))[0] != xs[2]: bad("public key of %x: the third coordinate is not that of the difference" % a); continue
        def trip(X, Y, lab):
            D = C.add(X, C.neg(Y)) if X and Y else None
            if X and Y and D and (0, 0) not in (X[0], Y[0], D[0]): L.append((X[0], Y[0], D[0], lab, a))
        mulc = C.mul; S = lambda X, Y: C.add(X, Y)
        trip(P, Q, "honest"); trip(Q, P, "swapped"); trip(P, C.neg(Q), "negated"); trip(S(P, Q), Q, "P+Q,Q"); trip(P, S(P, Q), "P,P+Q"); trip(mulc(2, P), Q, "2P,Q"); trip(P, mulc(5, Q), "P,5Q"); trip(S(P, mulc(7, Q)), S(Q, mulc(3, P)), "mix")
        trip(S(P, Q), S(P, C.neg(Q)), "P+Q,P-Q"); trip(S(mulc(2, P), Q), S(P, mulc(2, Q)), "dependent mod 3")
        T = None
        # a point of order 2 and one of order 4
        x = 2
        while T is None:
            x += 1; U = C.lift((x, 1))
            if U:
                V = C.mul(3**e3, U); k = 0; W = [V]
                while W[-1] is not None: W.append(C.add(W[-1], W[-1]))
                if len(W) >= 4: T, T4, G = W[-2], W[-3], U
        for nm, t in (("order 2", T), ("order 4", T4), ("(0,0)", ((0, 0), (0, 0))), ("a random point", G)):
            trip(S(P, t), Q, "P+" + nm); trip(P, S(Q, t), "Q+" + nm); trip(S(P, t), S(Q, t), "both+" + nm)
        trip(G, Q, "random,Q"); trip(P, G, "P,random"); trip(T4, Q, "order 4,Q"); trip(P, T4, "P,order 4")
        ksz = range(1, e3) if q == 0 else (1, 2, e3 // 2, e3 - 2, e3 - 1)
        Pk, Qk = P, Q
        for k in range(1, e3):
            Pk, Qk = C.mul(3, Pk), C.mul(3, Qk)
            if k in ksz:
                trip(Pk, Q, "3^%d P,Q" % k); trip(P, Qk, "P,3^%d Q" % k); trip(P, S(P, Qk), "P,P+3^%d Q" % k); trip(S(Pk, Q), C.neg(Q), "Q+3^%d P,-Q" % k)
                if k in (1, e3 - 1): trip(S(Pk, Q), P, "Q+3^%d P,P" % k); trip(Pk, Qk, "both 3^%d" % k)
        # the other twist and garbage
        for y in ((5, 1), (1, 7), (11, 0)):
            L.append((xs[0], xs[1], y, "garbage", a)); L.append((y, xs[1], xs[2], "garbage", a)); L.append((xs[0], y, xs[2], "garbage", a))
        L.append((xs[0], xs[1], S(P, Q)[0], "sum instead of difference", a))
    # singular curves: y^2 = x (x+1)^2, parametrised by the multiplicative group
    def xt(t): return f.sq(f.div(f.add((1, 0), t), f.sub((1, 0), t)))
    g = (3, 1)
    def fpow(x, k):
        r = (1, 0)
        while k:
            if k & 1: r = f.mul(r, x)
            x = f.sq(x); k >>= 1
        return r
    g = fpow(g, (p*p - 1)//3**e3)
    for k in (2, 4, 5, 3):
        h = fpow(g, k)
        for sgn in (1, -1):
            t = [f.k(xt(z), sgn) for z in (g, h, f.div(g, h))]; L.append((t[0], t[1], t[2], "singular A=%d" % (2*sgn), 0))
    for a_, b_, c_, lab, key in mine(L):
        if (0, 0) in (a_, b_, c_): continue
        w = oracle15(a_, b_, c_)
        for e in exes:
            o = e("V %s" % (f.enc(a_) + f.enc(b_) + f.enc(c_)).hex())
            if not o: continue
            st["states"] += 1; st["nontriv"] += 1 - w
            if int(o[1] != "0") != w: bad("validation returns %s for a %s key (%s, on the curve of secret %x)" % (o[1], "degenerate" if w else "valid", lab, key))

def fmtB(b):
    b = bytearray(b); b[-2] &= M3; b[-1] &= M2; return le(3*num(b), len(b))
# keys of B whose deterministic basis needs unusually many attempts (beyond the precomputed tables), found by search
RARE_B = {434: [743256, 775779, 221019, 684153], 503: [230328, 484329, 247482, 262602], 610: [915, 1071714, 686889, 980970, 632769], 751: [150711, 569760]}
def c17s():
    done = set()
    kp = key_pairs(SIZE)
    for a, b in mine([(kp[k % len(kp)][0], b // 3) for k, b in enumerate(RARE_B[BITS])] + kp):
        a &= ~1; b = num(fmtB(le(b, SB)))
        if (a, b) in done: continue
        done.add((a, b)); st["states"] += 1; st["nontriv"] += 1
        rs = [e("S %s %s" % (le(a, SA).hex(), le(b, SB).hex())) for e in exes]
        if None in rs: continue
        if any(x != rs[0] for x in rs): bad("portable and assembly builds differ for keys %x, %x" % (a, b))
        r = rs[0]
        if r[1] != "0": bad("key exchange reports failure for keys %x, %x" % (a, b))
        w = R.shared(a, b).hex()
        if r[4] != w: bad("A's shared secret for keys %x, %x is not the invariant of the common codomain" % (a, b))
        if r[5] != w: bad("B's shared secret for keys %x, %x is not the invariant of the common codomain" % (a, b))
def c17k():
    ks, ms = keyscripts(SIZE + 3, SA), messages(SIZE + 3)
    nb = f.nb; OA = (f.e2 + 7)//8; M = 2**f.e2
    L = []
    for q, (r, m) in enumerate(zip(ks, ms)):
        hs = [honest(e, r, m) for e in (exes if q % NS == SH else exes[:1])]
        if None in hs: continue
        if any(h != hs[0] for h in hs): bad("portable and assembly builds differ for random bytes %s" % r.hex())
        pk, sk, ct, ss, s2 = hs[0]
        s, a = sk[:MSG], num(sk[MSG:MSG+SA])
        if q % NS == SH:
            st["states"] += 1; st["nontriv"] += 1
            if s not in r: bad("the rejection seed is not taken from the random source")
            if a % 2 or a >= M or sk[MSG+1:MSG+SA-1] not in r: bad("secret scalar %x is not the masked random value" % a)
            if sk[MSG+SA:MSG+SA+PKB_] != pk: bad("the secret key does not embed its public key")
            b = num(fmtB(H(SB, m, pk)))
            j = R.shared(a, b)
            if ct[-MSG:] != bytes(x ^ y for x, y in zip(m, H(MSG, j))): bad("second part of the ciphertext is not m xor H(j) for message %s" % m.hex())
            if ss != H(CB, m, ct): bad("shared secret is not H(m||ct) for message %s" % m.hex())
            if s2 != ss: bad("decapsulation differs from encapsulation for random bytes %s, message %s" % (r.hex(), m.hex()))
        if q < 3 or q >= 3 + min(SIZE, 3): continue
        def parts(t):
            o = [num(t[i*OA:(i+1)*OA]) for i in range(4)]; A = [num(t[4*OA + i*nb:4*OA + (i+1)*nb]) % p for i in range(2)]
            return (o[0] + a*o[2]) % M, (o[1] + a*o[3]) % M, A, t[4*OA + 2*nb] & 1, t[4*OA + 2*nb + 1:]
        T = [ct[:i] + bytes([ct[i] ^ x]) + ct[i+1:] for i in range(CTB) for x in ((1, 128) if q == 3 else (1 << (i*5 + q) % 8,))]
        o2 = honest(fast, r, ms[0] if q else ms[1])[2]
        T += [o2[:CTB-MSG] + ct[CTB-MSG:], ct[:CTB-MSG] + o2[CTB-MSG:], bytes(CTB), b"\xff"*CTB, bytes(4*OA) + ct[4*OA:]]
        c = [num(ct[i*OA:(i+1)*OA]) for i in range(4)]
        def coef(v): return b"".join(le(x % M, OA) for x in v) + ct[4*OA:]
        T += [coef(v) for v in ((c[2], c[3], c[0], c[1]), (c[1], c[0], c[3], c[2]), (-c[0], -c[1], -c[2], -c[3]), (3*c[0], 3*c[1], 3*c[2], 3*c[3]), (c[0], c[1], -c[2], -c[3]),
              (c[0] + a*c[2], c[1] + a*c[3], 0, 0), (c[0] + M//2, c[1], c[2], c[3]), (c[0], c[1], c[2] + M//2, c[3]), (2*c[0], 2*c[1], 2*c[2], 2*c[3]), (0, 0, 0, 0), (c[0] - a, c[1], c[2] + 1, c[3]), (c[0], c[1] + a, c[2], c[3] - 1))]
        Ai = [num(ct[4*OA + i*nb:4*OA + (i+1)*nb]) for i in range(2)]
        def withA(x, y): return ct[:4*OA] + le(x, nb) + le(y, nb) + ct[4*OA + 2*nb:]
        T += [withA(-Ai[0] % p, -Ai[1] % p), withA(Ai[0], -Ai[1] % p), withA(Ai[1], Ai[0]), withA(6, 0), withA(0, 0), withA(2, 0), withA(p-2, 0)]
        if Ai[0] + p < 256**nb: T.append(withA(Ai[0] + p, Ai[1]))
        z = 4*OA + 2*nb
        T += [ct[:z] + bytes([ct[z] ^ f_, i]) + ct[z+2:] for f_ in (0, 1) for i in range(0, 256, 1 if q == 3 else 17)]
        T += [withA(0, 0)[:z] + bytes([f_, i]) + ct[z+2:] for f_ in (0, 1) for i in (0, 1, 16, 17, 255)]
        h0 = parts(ct)
        for t in T:
            if t == ct: continue
            h = parts(t)
            L.append((t, sk, m, h[2:] == h0[2:] and (h[:2] == h0[:2] or ((h[0] + h0[0]) % M == 0 and (h[1] + h0[1]) % M == 0))))
    for e in exes:
        for t, sk, m, same in (mine(L) if e is fast else mine(L)[::max(1, len(mine(L)) // 12)]):
            o = e("D %s %s" % (t.hex(), sk.hex()))
            if not o: continue
            st["states"] += 1; v = bytes.fromhex(o[2])
            if o[1] != "0": bad("decapsulation of an altered ciphertext returns %s: %s" % (o[1], t.hex()))
            if v == H(CB, sk[:MSG], t): st["nontriv"] += 1; continue
            if same and v == H(CB, m, t): continue
            bad("decapsulation of an altered ciphertext returns %s: %s" % ("H(m||ct)" if v == H(CB, m, t) else "a key that is not H(s||ct)", t.hex()))
def frand():
    n = 0
    for e in exes:
        e.p.stdin.write("F\n"); e.p.stdin.flush()
        while True:
            l = e.p.stdout.readline().split()
            if not l: bad("the library ended abnormally when the random source failed"); break
            if l[1] == "end": break
            n += 1; st["states"] += 1; st["exec"] += 1; st["trans"] += 1
            if l[3] == "0": bad("%s succeeds although request %s for randomness failed" % (l[1], l[2]))
    if not n: bad("no request for randomness was made")
try:
    {"c12": c12, "c13": c13, "c14": c14, "c15": c15, "c17s": c17s, "c17k": c17k, "frand": frand}[MODE]()
except Exception:
    traceback.print_exc(); sys.exit(3)
for k, v in st.items(): print("S %s %d" % (k, v))
print("DONE")
