"""cliworker.py <bits> <links> <full 0/1> <prove exe> <verify exe> <scratch>
Runs the two programs, unreduced, in a chain and compares with the reference verifier."""
import sys, os, subprocess, multiprocessing, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from poikref import *
BITS, LINKS, FULL = map(int, sys.argv[1:4]); PROVE, VERIFY = sys.argv[4:6]
REPS = {434: 219, 503: 219, 610: 329, 751: 438}[BITS]; HASH = {434: 32, 503: 32, 610: 48, 751: 64}[BITS]; W, HT = 4, 7
K = PoIK(BITS); f = K.f; nv = [0]; st = {"states": 0, "trans": 0, "exec": 0, "nontriv": 0}
def bad(*a): nv[0] += 1; print("V p%d programs: %s" % (BITS, " ".join(map(str, a))))
def fp2(l):
    a, b = l.split(","); n = f.nb*2 + 2
    if len(a) != n or len(b) != n or a[:2] != "0x" or b[:2] != "0x": raise ValueError(l)
    return bytes.fromhex(a[2:])[::-1] + bytes.fromhex(b[2:])[::-1]
def parse(t):
    L = t.split("\n"); it = iter(L); P = {"E0": fp2(next(it)), "E1": fp2(next(it)), "resp": [], "hash": HASH}
    for _ in range(REPS):
        r = {"tag": int(next(it))}; la, lb = {-1: (2*HASH, HASH), 0: (2*HASH, 2*HASH), 1: (HASH, 2*HASH)}[r["tag"]]
        r["a"], r["b"] = bytes.fromhex(next(it)), bytes.fromhex(next(it))
        if (len(r["a"]), len(r["b"])) != (la, lb): raise ValueError("lengths of nonces and commitments")
        if r["tag"] == 0: r["E2"] = fp2(next(it))
        r["x"] = [fp2(next(it)) for _ in range(W if r["tag"] == 0 else HT)]; P["resp"].append(r)
    if list(it) != [""]: raise ValueError("more text after the proof")
    return P
def opening(a): return K.opening(*a)
def run(exe, args, inp):
    st["exec"] += 1; st["trans"] += 1
    r = subprocess.run([exe, *args], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=900); return r.returncode, r.stdout
def main():
    E, inp, args = (0, 0), "", ["--initial"]
    for link in range(LINKS):
        rc, t = run(PROVE, args, inp); st["states"] += 1
        if rc: bad("the prover exits with %d on the %s" % (rc, "initial curve" if not link else "second line of the verifier")); return
        try: P = parse(t)
        except Exception as e: bad("the proof is not well-formed text (%s)" % e); return
        if f.dec(P["E0"]) != K.canon(E)[0]: bad("link %d: the proof does not start at the curve given" % link)
        rc, o = run(VERIFY, [], t); L = t.split("\n")
        if rc: bad("link %d: the verifier exits with %d on the prover's proof" % (link, rc)); return
        if o != L[0] + "\n" + L[1] + "\n": bad("link %d: the verifier does not print exactly the two curves" % link); return
        for what, q in (("cut", t[:len(t)//2]), ("without its last character", t[:-2]), ("changed in the last line", t[:-30] + ("1" if t[-30] != "1" else "2") + t[-29:]), ("with the two curves exchanged", "\n".join([L[1], L[0]] + L[2:]))):
            rc, o = run(VERIFY, [], q); st["states"] += 1; st["nontriv"] += 1
            if rc == 0 or o: bad("link %d: a proof %s: the verifier exits with %d and prints %d characters" % (link, what, rc, len(o)))
        if FULL:
            with multiprocessing.Pool() as pool: cs = pool.map(opening, [({"E0": P["E0"], "E1": P["E1"], "hash": HASH}, r) for r in P["resp"]], chunksize=4)
            if None in cs or "dc" in cs: bad("link %d: a response of the proof is not a genuine opening" % link)
            elif K.challenge(f.dec(P["E0"]), f.dec(P["E1"]), cs, REPS) != [r["tag"] for r in P["resp"]]: bad("link %d: the tags are not the challenge" % link)
            st["states"] += REPS
        E, inp, args = f.dec(P["E1"]), L[1] + "\n", []
if __name__ == "__main__":
    try: main()
    except Exception: traceback.print_exc(); sys.exit(3)
    for k, v in st.items(): print("S %s %d" % (k, v))
    print("DONE")
