"""poikworker.py <mode> <bits> <shard> <nshards> <size> <exe>...
Drives h_rpoik over a real parameter set and compares with the reference (poikref.py)."""
import sys, os, subprocess, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from poikref import *
MODE, BITS, SH, NS, SIZE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
st = {"states": 0, "trans": 0, "exec": 0, "nontriv": 0}; nv = [0]
def bad(*a):
    nv[0] += 1
    if nv[0] <= 12: print("V p%d: %s" % (BITS, " ".join(map(str, a))))
class Ex:
    def __init__(s, exe): s.exe = exe; s.start()
    def start(s):
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        s.reps, s.W, s.H, s.hash, s.hide = map(int, s.p.stdout.readline().split()[1:])
    def cmd(s, c):
        st["exec"] += 1; st["trans"] += 1
        try: s.p.stdin.write(c + "\n"); s.p.stdin.flush(); l = s.p.stdout.readline()
        except BrokenPipeError: l = ""
        if not l:
            bad("the library ended abnormally (status %s) on %s" % (s.p.wait(), c[:160])); s.start(); return None
        return l.split()
    def gen(s, A, seed, pos=-1, fx=1):
        o = s.cmd("G %s %d %d %d" % (K.f.enc(A).hex() if isinstance(A, tuple) else A.hex(), seed, pos, fx))
        if not o: return None
        if o[1] == "0": return False
        s.drawn = int(o.pop()); x = [bytes.fromhex(t) for t in o[2:]]; return x[:s.W+1], x[s.W+1:]
    def prove(s, seed, cut=-1, seed2=0):
        o = s.cmd("P %d %d %d" % (seed, cut, seed2))
        if not o: return None, None
        k = o.index("|"); return s.parse(o[1:k]), [bytes.fromhex(t) for t in o[k+1:]]
    def parse(s, t):
        t = iter(t); b = lambda: bytes.fromhex(next(t)); P = {"E0": b(), "E1": b(), "resp": [], "hash": s.hash}
        for _ in range(s.reps):
            r = {"tag": int(next(t))}; P["resp"].append(r)
            if r["tag"] in (-1, 0, 1):
                r["a"], r["b"] = b(), b()
                if r["tag"] == 0: r["E2"] = b()
                r["x"] = [b() for _ in range(s.W if r["tag"] == 0 else s.H)]
        return P
    def show(s, P):
        o = [P["E0"].hex(), P["E1"].hex()]
        for r in P["resp"]:
            o.append(str(r["tag"]))
            if r["tag"] in (-1, 0, 1): o += [r["a"].hex(), r["b"].hex()] + ([r["E2"].hex()] if r["tag"] == 0 else []) + [x.hex() for x in r["x"]]
        return " ".join(o)
    def verify(s, P):
        o = s.cmd("V " + s.show(P)); return None if not o else o[1] != "0"
K = PoIK(BITS); f = K.f; p = f.p
exes = [Ex(x) for x in sys.argv[6:]]; ex = exes[0]
def mine(l): return [x for i, x in enumerate(l) if i % NS == SH]
def starts(n):
    """admissible coefficients: 0, 6, curves over the prime field, their models, ends of walks"""
    L = [(0, 0), (6, 0)]; A = (6, 0)
    for i in range(6):
        r = [x for x in K.roots(A) if x[1] == 0]
        nx = [B for B in ((( 2 - 4*x[0]*x[0]) % p, 0) for x in r) if B not in L]
        if not nx: break
        A = nx[0]; L.append(A)
    M = []
    for A in L:
        for m in K.models(A):
            if m[0] not in M: M.append(m[0])
    k = 0; out = [M[(i*7) % len(M)] if len(M) % 7 else M[i] for i in range(len(M))]
    B = (6, 0)
    while len(out) < n:
        x, k = K.full(B, 3, k); B = K.step(B, x, 3)[0]
        x, k = K.full(B, 2, k); B = K.step(B, x, 2)[0]; out.append(B)
        out += [m[0] for m in K.models(B)[1:]][:2]
    return out[:n]
def d(b): return K.f.dec(b)
def check_walk(e, A, w, who):
    E, P = w
    E, P = [d(x) for x in E], [d(x) for x in P]
    if K.f.j(E[0]) != K.f.j(A): bad(who, "the walk does not start at the given curve")
    fb = None
    for i in range(e.W):
        r = K.step(E[i], P[i], 2)
        if r is None: bad(who, "kernel %d of the walk does not have the full order" % i); return
        if K.f.j(r[0]) != K.f.j(E[i+1]): bad(who, "curve %d of the walk is not the quotient by kernel %d" % (i+1, i)); return
        if fb is not None and r[2] == fb: bad(who, "the walk backtracks at step %d" % i)
        ms = [m for m in K.models(r[0]) if m[0] == E[i+1]]
        fb = K.tr(ms[0], r[1]) if len(ms) == 1 else None
    return E[-1]
def honest():
    for i, A in mine(list(enumerate(starts(SIZE)))):
        e = exes[i % len(exes)]
        w = e.gen(A, i)
        if w is None: continue
        who = "start %s, seed %d:" % (f.enc(A).hex(), i)
        if w is False: bad(who, "the valid curve is refused"); continue
        end = check_walk(e, A, w, who)
        if end is None: continue
        for k in range(2):
            P, _ = e.prove(10*i + k)
            if P is None: continue
            st["states"] += 1; st["nontriv"] += 1; whok = "%s proof %d:" % (who, k)
            if e.verify(P) is not True: bad(whok, "the honest proof does not verify")
            if d(P["E0"]) != K.canon(A)[0]: bad(whok, "the proof does not name the canonical model of its start")
            if d(P["E1"]) != K.canon(end)[0]: bad(whok, "the proof does not name the canonical model of its end")
            if K.verify(P) is not True: bad(whok, "the reference verifier rejects the honest proof")
def names():
    for i, A in mine(list(enumerate(starts(SIZE)))):
        seen = {}
        for m in K.models(A):
            w = ex.gen(m[0], i)
            if not w: bad("model %s of the valid curve %s is refused" % (f.enc(m[0]).hex(), f.enc(A).hex())); continue
            P, _ = ex.prove(i)
            if P is None: continue
            st["states"] += 1; st["nontriv"] += 1
            if d(P["E0"]) != K.canon(A)[0]: bad("curve %s given as %s is named %s, its least model is %s" % (f.enc(A).hex(), f.enc(m[0]).hex(), P["E0"].hex(), f.enc(K.canon(A)[0]).hex()))
            if d(P["E1"]) != K.canon(d(P["E1"]))[0]: bad("the end curve is named %s, its least model is %s" % (P["E1"].hex(), f.enc(K.canon(d(P["E1"]))[0]).hex()))
            w = ex.gen(P["E1"], i + 1)
            if not w: bad("the end curve %s is refused as a start" % P["E1"].hex()); continue
            Q, _ = ex.prove(i)
            if Q and Q["E0"] != P["E1"]: bad("the canonical curve %s is renamed to %s" % (P["E1"].hex(), Q["E0"].hex()))
def with_nonces(P, n):
    r = P["resp"][0]
    for k in range(n):
        q = dict(P); q["resp"] = [dict(r)]
        if r["tag"] in (-1, 0): q["resp"][0]["a"] = H(len(r["a"]), b"n%d" % k)
        if r["tag"] in (0, 1): q["resp"][0]["b"] = H(len(r["b"]), b"m%d" % k)
        yield q
def forge():
    """one repetition; paths built here, the hashes are those the verifier computes itself"""
    k = 1000*SH
    S = starts(6)
    units = [(tag, A) for A in S[:SIZE] for tag in (-1, 0, 1)]
    for u, (tag, A) in mine(list(enumerate(units))):
        A = K.canon(A)[0]; l = 2 if tag == 0 else 3; n = ex.W if tag == 0 else ex.H; e = K.exp(l)
        O = K.canon(S[(u + 1) % len(S)])[0]
        base = {"E0": f.enc(A if tag <= 0 else O), "E1": f.enc(A if tag > 0 else O), "hash": ex.hash}
        nl, nh = ex.hide, ex.hash
        def mkp(xs, E=A):
            r = {"tag": tag, "a": bytes(nl if tag <= 0 else nh), "b": bytes(nl if tag >= 0 else nh), "x": [f.enc(x) for x in xs]}
            if tag == 0: r["E2"] = f.enc(E)
            return dict(base, resp=[r])
        # a genuine path
        k = 100000*u; xs, Es, E, fb = [], [], A, None
        for i in range(n):
            if i: m = K.canon(E); E, fb = m[0], K.tr(m, fb)
            Es.append((E, fb)); x, k = K.full(E, l, k, avoid=fb); xs.append(x); E, fb, _ = K.step(E, x, l)
        good = 0
        for q in with_nonces(mkp(xs), 9):
            st["states"] += 1; w = K.verify(q); v = ex.verify(q); good += v is True
            if v is not None and v != w: bad("a genuine path with tag %d is %s, the reference says %s: %s" % (tag, v, w, ex.show(q)[:400]))
        st["nontriv"] += good
        cases = []
        Ek, fk = Es[-1]
        last = xs[-1]
        def rep(x): return xs[:-1] + [x]
        P = (last, (1, 0))
        for m in (1, 2, e//2, e - 1): cases.append(("order l^%d in the last step" % (e - m), rep(f.aff(K.mulx(P, Ek, l, m)))))
        cases.append(("the coordinate 0 in the last step", rep((0, 0)))); cases.append(("the coordinate 1 in the last step", rep((1, 0)))); cases.append(("the coordinate p-1 in the last step", rep((p-1, 0))))
        for t in range(2):
            x, k = K.point(Ek, k); cases.append(("a random point in the last step", rep(x)))
            R = (x, (1, 0)); a, b = (f.e2, f.e3) if l == 2 else (f.e3, f.e2)
            cases.append(("a point of order l^e*q in the last step", rep(f.aff(K.times(R, Ek, 0, f.e3 - 1) if l == 2 else K.times(R, Ek, f.e2 - 1, 0)))))
            cases.append(("a point of order l^(e+..) times all in the last step", rep(f.aff(K.mulx(R, Ek, l, 1)))))
            x, k = K.point(Ek, k, True); cases.append(("a point of the twist in the last step", rep(x)))
            x, k = K.full(Ek, 5 - l, k); cases.append(("a point of order %d^e in the last step" % (5 - l), rep(x)))
        if l == 3: cases.append(("a point of order 2*3^e in the last step", rep(f.inv(last))))
        if n > 1:
            for i in range(1, n):
                E, fb = Es[i]; x, k = K.full(E, l, k, want=fb); ys = xs[:i] + [x]; E, fb, _ = K.step(E, x, l)
                for jx in range(i + 1, n):
                    m = K.canon(E); E, fb = m[0], K.tr(m, fb); y, k = K.full(E, l, k, avoid=fb); ys.append(y); E, fb, _ = K.step(E, y, l)
                cases.append(("backtracking at step %d" % i, ys))
            cases.append(("the steps exchanged", xs[::-1])); cases.append(("the first step twice", [xs[0]]*n))
        # the path of another curve
        ys, E, fb = [], O, None
        for i in range(n):
            if i: m = K.canon(E); E, fb = m[0], K.tr(m, fb)
            y, k = K.full(E, l, k, avoid=fb); ys.append(y); E, fb, _ = K.step(E, y, l)
        cases.append(("a path that starts at another curve", ys))
        for what, ys in cases:
            acc = []
            for q in with_nonces(mkp(ys), 14):
                st["states"] += 1; st["nontriv"] += 1
                if ex.verify(q): acc.append(q)
            for q in acc[:1]:
                if K.verify(q) is not True: bad("a path with tag %d and %s is accepted: %s" % (tag, what, ex.show(q)[:400]))
def change():
    """several repetitions: every single change of an honest proof; an accepted one must satisfy the reference"""
    A = starts(3)[1]; w = ex.gen(A, 5)
    if not w: bad("the valid curve is refused"); return
    seeds = []; 
    for sd in range(40):
        P, _ = ex.prove(sd)
        if P is None: return
        if {r["tag"] for r in P["resp"]} >= {-1, 0, 1}: seeds.append(P)
        if len(seeds) == 2: break
    if not seeds: bad("no challenge with all three tags in 40 proofs"); return
    L = []
    for P in seeds[:1]:
        for key in ("E0", "E1"):
            for i in range(len(P[key])): L.append((P, key, None, i))
            L.append((P, key, None, "swap"))
        for ri, r in enumerate(P["resp"]):
            for t in (-1, 0, 1, 2, -2):
                if t != r["tag"]: L.append((P, "tag", ri, t))
            for key in [k for k in ("a", "b", "E2") if k in r]: L += [(P, key, ri, i) for i in range(len(r[key]))]
            for xi in range(len(r["x"])): L += [(P, ("x", xi), ri, i) for i in range(len(r["x"][xi]))]
            L.append((P, "rswap", ri, 0))
    short = max(1, len(L) // SIZE)
    def flip(b, i): return b[:i] + bytes([b[i] ^ (1 << (i % 8))]) + b[i+1:]
    for n, (P, key, ri, i) in mine(list(enumerate(L))):
        if isinstance(i, int) and key not in ("tag", "rswap") and n % short: continue
        q = dict(P); q["resp"] = [dict(r) for r in P["resp"]]
        if key == "rswap": a = q["resp"]; b = (ri + 1) % len(a); a[ri], a[b] = a[b], a[ri]
        elif i == "swap": q["E0"], q["E1"] = q["E1"], q["E0"]
        elif ri is None: q[key] = flip(q[key], i)
        elif key == "tag":
            r = q["resp"][ri]; o = next((z for z in P["resp"] if z["tag"] == i), None)
            if o is not None: q["resp"][ri] = dict(o)       # another response of that kind
            else: q["resp"][ri] = {"tag": i}
        elif isinstance(key, tuple): r = q["resp"][ri]; r["x"] = list(r["x"]); r["x"][key[1]] = flip(r["x"][key[1]], i)
        else: q["resp"][ri][key] = flip(q["resp"][ri][key], i)
        if q == P: continue
        st["states"] += 1; st["nontriv"] += 1
        if ex.verify(q) and K.verify(q) is False: bad("the proof with %s of repetition %s changed at %s is accepted: %s" % (key, ri, i, ex.show(q)[:300]))
    for P in seeds:
        if K.verify(P) is not True: bad("the reference verifier rejects an honest proof")
def curves():
    S = starts(8); L = [(x, 0) for x in range(12)] + [(-x % p, 0) for x in range(1, 8)] + [(0, x) for x in (1, 2, 3, p-2, p-1)] + S
    for A in S: L += [f.add(A, (1, 0)), f.add(A, (0, 1)), (A[0], -A[1] % p), (A[1], A[0]), f.k(A, 2), f.mul(A, (0, 1))]
    L += [K.point((6, 0), 50 + i)[0] for i in range(10)]
    for i, A in mine(list(enumerate(L))[:SIZE]):
        w = K.good(A); st["states"] += 1; st["nontriv"] += not w
        g = ex.gen(A, i)
        if g is not None and (g is not False) != w: bad("curve %s is %s, the reference says %s" % (f.enc(A).hex(), g is not False, w))
def place():
    """every kind of bad curve in every place of an otherwise honest proof (one repetition)"""
    w = ex.gen((6, 0), 3); got = {}
    if not w: bad("the valid curve is refused"); return
    for sd in range(60):
        P, _ = ex.prove(sd)
        if P and P["resp"][0]["tag"] not in got: got[P["resp"][0]["tag"]] = P
    badA = [(2, 0), (p-2, 0), (1, 0), (3, 0), (0, 1), K.point((6, 0), 77)[0]]
    units = [(t, pl, A) for t in got for pl in ("E0", "E1", "E2") for A in badA if pl != "E2" or t == 0]
    for t, pl, A in mine(units):
        if K.good(A): continue
        P = got[t]
        for q in with_nonces(P, 14):
            if pl == "E2": q["resp"][0]["E2"] = f.enc(A)
            else: q[pl] = f.enc(A)
            st["states"] += 1; st["nontriv"] += 1
            if ex.verify(q): bad("a proof with the inadmissible curve %s as %s is accepted" % (f.enc(A).hex(), pl))
def short_vector(dl, M):
    a, b = (M, 0), (dl, 1)
    n = lambda v: v[0]*v[0] + v[1]*v[1]
    while True:
        if n(a) < n(b): a, b = b, a
        q = (2*(a[0]*b[0] + a[1]*b[1]) + n(b)) // (2*n(b))
        if q == 0: return b
        a = (a[0] - q*b[0], a[1] - q*b[1])
def disclose():
    w = ex.gen((6, 0), SH)
    if not w: bad("the valid curve is refused"); return
    secretx = set(w[1]); nonces = {}
    for sd in mine(list(range(SIZE))):
        P, log = ex.prove(sd)
        if P is None: return
        st["states"] += 1; st["nontriv"] += 1
        flat = ex.show(P); pool = b"".join(log); used = []
        for r in P["resp"]:
            for key in ("a", "b"):
                if len(r[key]) == ex.hide:
                    if r[key] not in pool: bad("seed %d: a nonce is not taken from the random source" % sd)
                    if r[key] in used: bad("seed %d: a nonce is used twice" % sd)
                    used.append(r[key])
                elif r[key] in pool: bad("seed %d: a commitment equals random bytes" % sd)
        # random requests of the length of a nonce that are not opened must not show in the proof
        for x in log:
            if len(x) >= 16 and x not in used and x.hex() in flat: bad("seed %d: random bytes %s.. appear in the proof" % (sd, x.hex()[:32]))
        if set(x for r in P["resp"] if r["tag"] == 0 for x in r["x"]) & secretx: bad("seed %d: a secret kernel point appears in the proof" % sd)
def walks():
    for i, A in mine(list(enumerate(starts(SIZE)))):
        e = exes[i % len(exes)]
        for k in range(2):
            w = e.gen(A, 100*i + k); st["states"] += 1; st["nontriv"] += 1
            who = "start %s, seed %d:" % (f.enc(A).hex(), 100*i + k)
            if w is False: bad(who, "the valid curve is refused")
            elif w: check_walk(e, A, w, who)
def influence():
    """how many random bytes the point that became the first kernel depends on: at least as many as the kernel
    has bits.  (Changes that alter the number of bytes drawn concern points that were tried before or after.)"""
    best = 0; A = starts(4)[SH % 4]; need = (f.e2 + 7)//8; win = 16*((f.nb + 7)//8)
    for sd in range(SIZE):
        w = ex.gen(A, sd)
        if not w: return
        n = 0; tot = ex.drawn
        for pos in range(max(0, tot - win), tot):
            for fx in (1, 2, 4, 8, 16, 32):
                v = ex.gen(A, sd, pos, fx); st["states"] += 1
                if v and ex.drawn == tot and v[1][0] != w[1][0]: n += 1; break
        best = max(best, n); st["nontriv"] += 1
    if best < need: bad("the first kernel depends on %d random bytes only, %d are needed to reach every kernel" % (best, need))
def gens():
    """one repetition answered with the middle path: what the generators shown depend on"""
    w = ex.gen((6, 0), SH)
    if not w: bad("the valid curve is refused"); return
    M = 2**f.e2
    for sd in range(40):
        P, log = ex.prove(sd)
        if P is None: return
        if P["resp"][0]["tag"] == 0: break
    else: bad("no middle response in 40 proofs"); return
    r = P["resp"][0]; n = len(log)
    at = [i for i, x in enumerate(log) if x in (r["a"], r["b"])]
    if len(at) < 2: return                              # the nonces are not drawn by themselves: nothing to vary
    c = max(at) + 1
    if c == n: return                                   # drawn earlier: as above
    dl, shown = [], set()
    for k in range(SIZE):
        Q, _ = ex.prove(sd, c, k)
        if Q is None: return
        q = Q["resp"][0]; st["states"] += 1
        if (Q["E0"], Q["E1"], q["tag"], q["a"], q["b"]) != (P["E0"], P["E1"], 0, r["a"], r["b"]) or q["E2"] != r["E2"]: bad("the commitments change with later random bytes"); return
        E = d(r["E2"]); A = E
        for i in range(ex.W):
            if i: A = K.canon(K.step(A, d(r["x"][i-1]), 2)[0])[0]
            if SH % ex.W != i: continue
            shown.add(q["x"][i])
            v = K.dlog2(A, K.lift(A, d(r["x"][i])), K.lift(A, d(q["x"][i])), f.e2)
            if v is None: bad("the generators shown for one kernel generate different groups"); return
            dl.append(v); st["nontriv"] += 1
    if len(shown) < SIZE: bad("only %d different generators in %d proofs with different randomness" % (len(shown), SIZE))
    sv = [max(map(abs, short_vector(v, M))) for v in dl]
    if max(sv) < 2**(f.e2//2 - 16): bad("the generators shown are re-randomised by small scalars only (ratio of two numbers below 2^%d)" % max(sv).bit_length())
    ones = [v if v % 4 == 1 else M - v for v in dl]         # up to sign
    for b in range(2, f.e2):
        if len({v >> b & 1 for v in ones}) < 2: bad("bit %d of the ratio of the generators shown is constant" % b); break
try:
    {"gens": gens, "walks": walks, "influence": influence, "honest": honest, "names": names, "forge": forge, "change": change, "curves": curves, "place": place, "disclose": disclose}[MODE]()
except Exception:
    traceback.print_exc(); sys.exit(3)
for k, v in st.items(): print("S %s %d" % (k, v))
print("DONE")
