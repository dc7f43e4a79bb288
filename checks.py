"""One function per property: what is built, what is explored, what is reported."""
from vlib import *

def shards(exe, *args, n=None, post=()):
    n = n or NCPU
    return [[exe, *map(str, args), str(i), str(n), *map(str, post)] for i in range(n)]

def mcov(c, exhaustive=True, **kw):
    s = c.stats
    d = {"states": s.get("states", 0), "transitions": s.get("trans", 0),
         "traces_validated_against_impl": s.get("exec", 0), "exhaustive": exhaustive,
         "nontrivial": s.get("nontriv", 0)}
    d.update(kw)
    return d

REDUCED = ("the real fpx.c/ec_isogeny.c/sidh.c/poik.c/fips202.c compiled over a reduced prime 2^a*3^b-1 with a "
           "one-word base field supplied by the harness (the base field itself is C11)")

PWORKER = VERIF + "/ref/poikworker.py"
REALP = "real primes: the unmodified proof system with real kernel orders on structured starts, paths and alterations; oracle: reference verifier in Python integers"
def poik_jobs(c, tag, reps, W, Hh, modes, bits=(434, 503, 610, 751), generic=False):
    """jobs over the real primes; modes: list of (mode, size (or {bits: size}), shards)"""
    want = [(b, be) for b in bits for be in (("fast", "generic") if generic else ("fast",))]
    ex = dict(pmap(lambda k: (k, realpoik(c, "rp%s_%d%s" % (tag, k[0], k[1]), "h_rpoik.c", k[0], k[1], reps=reps, W=W, Hh=Hh, link=())), want))
    jobs = []
    for b in sorted(bits, reverse=True):
        for mode, size, ns in modes:
            size = size[b] if isinstance(size, dict) else size
            for i in range(ns):
                jobs.append([sys.executable, PWORKER, mode, str(b), str(i), str(ns), str(size)] + [ex[k] for k in want if k[0] == b])
    return jobs

def C01(c):
    q = c.quick
    # (e2,e3), W, H, reps, threaded, starts, deviating pairs, representative mode
    cfg = [((3, 2), 2, 2, 2, True, 3, 8, 0), ((3, 1), 3, 3, 2, True, 11, 20, 2), ((4, 3), 2, 2, 2, True, 8, 0, 1),
           ((3, 2), 2, 2, 2, False, 2, 4, 1)]
    if not q:
        cfg = [((3, 2), 2, 2, 2, True, 35, 16, 0), ((3, 1), 3, 3, 2, True, 11, 60, 2), ((3, 2), 2, 2, 2, False, 12, 12, 1),
               ((4, 1), 2, 3, 2, True, 23, 24, 2), ((5, 3), 4, 3, 3, True, 200, 0, 0), ((4, 3), 4, 7, 2, True, 200, 0, 2), ((4, 3), 2, 2, 1, True, 1, 6, 0)]
    def mk(i_k):
        i, k = i_k
        e, W, Hh, reps, thr, st, dv, rm = k
        return k, c.tiny("c01_%d" % i, "h_honest.c", e=e, W=W, Hh=Hh, reps=reps, thr=thr)
    jobs = []
    for k, x in pmap(mk, list(enumerate(cfg))):
        jobs += shards(x, "c01", post=(k[5], k[6], k[7]))
    jobs = poik_jobs(c, "", 1, 4, 7, [("honest", 12 if q else 60, 4 if q else 8)], generic=True) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="start model x one deviating pair of random field words over all of F_p^2 (and every value of every short random request); Generate, Prove, Verify and an independent verifier on each",
                    distinct_secret_walks=c.stats.get("secrets", 0)), [REDUCED, REALP])

def C02(c):
    q = c.quick
    cfg = [("p23", (3, 1), 2, 2), ("p71", (3, 2), 3, 3), ("p431", (4, 3), 2, 2), ("p47", (4, 1), 2, 2)]
    if not q: cfg += [("p71w4", (3, 2), 4, 3), ("p863", (5, 3), 2, 2)]
    ex = dict(pmap(lambda k: (k[0], c.tiny("c02_" + k[0], "h_c02.c", e=k[1], W=k[2], Hh=k[3])), cfg))
    jobs = []
    if q:
        for tag, mode in ((0, 0), (-1, 2), (1, 1)):
            jobs += shards(ex["p23"], "full", tag, post=(4, 1, mode))
            jobs += shards(ex["p71"], "deep", tag, post=(4, 3, mode))
        for tag in (0, 1, -1):
            jobs += shards(ex["p47"], "deep", tag, post=(4, 4, 2))
        jobs += shards(ex["p431"], "deep", 0, post=(4, 2, 2))
        jobs += shards(ex["p431"], "deep", 1, post=(1, 1, 0))
    else:
        for tag, mode in ((0, 0), (-1, 2), (1, 1), (0, 1)):
            jobs += shards(ex["p23"], "full", tag, post=(8, 11, mode))
            jobs += shards(ex["p71"], "deep", tag, post=(8, 35, mode))
            jobs += shards(ex["p47"], "deep", tag, post=(8, 23, mode))
            jobs += shards(ex["p431"], "deep", tag, post=(3, 2, mode))
        jobs += shards(ex["p71w4"], "deep", 0, post=(2, 1, 0))
        jobs += shards(ex["p863"], "deep", 0, post=(2, 2, 0))
        jobs = poik_jobs(c, "l", 1, 4, 7, [("forge", 6, 18)]) + jobs
    jobs = poik_jobs(c, "", 1, 2, 2, [("forge", 1 if q else 6, 3 if q else 18)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, accepted_forgeries_that_are_genuine=c.stats.get("accepted", 0),
        rule="every response of one repetition: all pairs of kernel coordinates in F_p^2 (p=23), all full-order generators plus representatives of every other order class at every position of longer chains (p=47,71,431), for every tag, each with several nonces; Verify's verdict compared with the reference verdict"), [REDUCED, REALP])

def C03(c):
    q = c.quick
    bl = {}
    def mk(k):
        name, kw = k
        return name, c.tiny("c03_" + name, "h_c03.c", **kw)
    cfg = [("b", dict(e=(3, 2), reps=1)), ("t", dict(e=(3, 2), reps=7)), ("t2", dict(e=(4, 3), reps=7, bits=610)), ("l", dict(e=(4, 3), reps=1500))]
    cfg += [("s%d" % b, dict(e=(3, 2) if b in (503, 610) else (4, 3), reps=0, bits=b)) for b in (434, 503, 610, 751)]
    ex = dict(pmap(mk, cfg))
    jobs = shards(ex["b"], "bytes", post=(4000 if q else 60000,)) + shards(ex["t"], "trits", post=(3000 if q else 60000,)) + shards(ex["t2"], "trits", post=(800 if q else 20000,)) + shards(ex["l"], "trits", post=(16 if q else 200,))
    for b in (434, 503, 610, 751):
        jobs += shards(ex["s%d" % b], "size", post=(1 if q else 6,))
    jobs = poik_jobs(c, "", 5, 1, 1, [("change", {434: 500, 503: 200, 610: 200, 751: 200} if q else 100000, 4 if q else 8)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="all 256 first digest bytes for each tag; honest proofs at full repetition counts of all four parameter sets against the reference challenge; every single tag/curve/kernel/swap change and byte changes of every repetition (all bytes of several repetitions)"), [REDUCED, REALP])

def C04(c):
    q = c.quick
    insts = [((3, 1), 1, 1), ((4, 1), 1, 1)] if q else [((3, 1), 1, 1), ((4, 1), 1, 1), ((3, 2), 1, 1)]
    exes = pmap(lambda i: (i, c.tiny("c04_%d%d" % i[0], "h_c04.c", e=i[0], W=i[1], Hh=i[2])), insts)
    jobs = []
    for (e, W, Hh), x in exes:
        small = e == (3, 1)
        jobs += shards(x, "gen2" if (small or not q and e == (4, 1)) else "gen1", post=() if small else (400,) if e == (4,1) and not q else (600,) if q else ())
        jobs += shards(x, "place")
    jobs = poik_jobs(c, "", 1, 1, 1, [("curves", 120, 4), ("place", 0, 4)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every coefficient A of F_p^2 x every first (and second) point drawn, through Generate; every A as E0, E1, E2 of an otherwise valid proof, through Verify; oracle: point count"), [REDUCED, REALP])

def C05(c):
    q = c.quick
    cfg = [((3, 2), 1, 35, 1, 0), ((3, 2), 2, 35, 3, 2), ((4, 1), 3, 23, 4, 1), ((4, 1), 2, 23, 4, 0), ((6, 1), 2, 4, 1, 0)]
    if not q: cfg = [((3, 2), 1, 35, 4, 0), ((3, 2), 2, 35, 24, 2), ((4, 1), 3, 23, 60, 1), ((4, 1), 2, 23, 60, 0), ((6, 1), 4, 47, 2, 0), ((4, 3), 2, 6, 2, 0), ((5, 3), 2, 4, 1, 1)]
    def mk(i_k):
        i, k = i_k
        return k, c.tiny("c05_%d" % i, "h_honest.c", e=k[0], W=k[1], Hh=1, reps=1)
    jobs = []
    for k, x in pmap(mk, list(enumerate(cfg))):
        jobs += shards(x, "c05", post=(k[2], k[3], k[4]))
    jobs = poik_jobs(c, "", 1, 4, 1, [("walks", 16 if q else 100, 4)]) + poik_jobs(c, "i", 1, 1, 1, [("influence", 2 if q else 8, 2)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="for every start model and several histories, all p^2 values of the deciding random pair; exact kernel counts; every walk checked step by step against textbook isogenies"), [REDUCED, REALP, "each random field word is uniform on [0,p) (the source's own non-uniformity, marked FIXME, is outside)"])

def C06(c):
    q = c.quick
    ex = dict(pmap(lambda k: (k[0], c.tiny("c06_" + k[0], "h_c06.c", **k[1])), [
        ("f", dict(e=(3, 2), W=2, Hh=2, reps=9)), ("f2", dict(e=(4, 1), W=1, Hh=1, reps=7, thr=False)), ("g", dict(e=(4, 1), W=2, Hh=1, reps=4)), ("g2", dict(e=(6, 1), W=3, Hh=1, reps=3)),
        ("m1", dict(e=(3, 2), W=1, Hh=1, reps=1)), ("m2", dict(e=(3, 2), W=1, Hh=2, reps=1)), ("m3", dict(e=(4, 1), W=2, Hh=3, reps=1))]))
    k = 1 if q else 12
    jobs = shards(ex["f"], "fresh", post=(16 * k,)) + shards(ex["f2"], "fresh", post=(16 * k,))
    jobs += shards(ex["g"], "gens", post=(8 * k,)) + shards(ex["g2"], "gens", post=(8 * k,))
    for m in ("m1", "m2", "m3"): jobs += shards(ex[m], "mask", post=(16 * k,))
    jobs = poik_jobs(c, "", 4, 2, 1, [("disclose", 24 * k, 4)]) + poik_jobs(c, "g", 1, 2, 1, [("gens", 24, 2)], bits=(434, 610) if q else (434, 503, 610, 751)) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="all random bytes of a run logged; every nonce located in them; every value of the bytes/words that decide generators and masking kernels"), [REDUCED, REALP])

def C18(c):
    q = c.quick
    cfg = [((3, 1), 2), ((4, 1), 2), ((3, 2), 2), ((4, 3), 1), ((5, 3), 1)] + ([] if q else [((5, 4), 1), ((4, 3), 8), ((8, 3), 1)])
    jobs = []
    for k, x in pmap(lambda ik: (ik[1], c.tiny("c18_%d" % ik[0], "h_honest.c", e=ik[1][0], W=1, Hh=1, reps=3)), list(enumerate(cfg))):
        for rm in (0, 1, 2):
            jobs += shards(x, "c18", post=(k[1], 0, rm))
    jobs = poik_jobs(c, "", 1, 1, 1, [("names", 16 if q else 80, 8)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every model of every admissible curve of several reduced fields, in every choice of field representatives"), [REDUCED, REALP])

REALN = ("the unmodified sources over the four real primes (assembly and portable field code), on structured secret keys, messages and alterations; oracle: textbook isogenies in Python integers")
WORKER = VERIF + "/ref/worker.py"
def real_jobs(c, modes, bits=(434, 503, 610, 751), comp=False, generic=True, tag=""):
    """modes: list of (mode, size, shards[, generic])"""
    want = [(b, be) for b in bits for be in (("fast", "generic") if generic else ("fast",))]
    ex = dict(pmap(lambda k: (k, c.real("real%s_%d%s" % (tag, k[0], k[1]), "h_real.c", k[0], k[1], comp=comp)), want))
    jobs = []
    for b in reversed(bits):
        for m in modes:
            mode, size, ns = m[:3]; g = m[3] if len(m) > 3 else generic
            size = size[b] if isinstance(size, dict) else size
            for i in range(ns):
                jobs.append([sys.executable, WORKER, mode, str(b), str(i), str(ns), str(size), ex[(b, "fast")], *([ex[(b, "generic")]] if g else [])])
    return jobs

def sidh_builds(c, es):
    return dict(pmap(lambda e: (e, c.tiny("sidh_%d_%d" % e, "h_sidh.c", e=e, poik=False, thr=False)), es))

def C12(c):
    q = c.quick
    es = [(3, 1), (4, 1), (3, 2), (2, 3), (4, 3), (5, 3)] + ([] if q else [(5, 4), (7, 2), (8, 3), (6, 1)])
    ex = sidh_builds(c, es)
    jobs = []
    for e in es:
        for rm in (0, 1, 2): jobs += shards(ex[e], "c12", post=(0, rm))
    jobs = real_jobs(c, [("c12", 32 if q else 400, 8)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every pair of secret keys of every reduced instance, in every choice of field representatives; public keys and shared secrets against textbook Velu isogenies"), [REALN, REDUCED])

def C13(c):
    q = c.quick
    es = [(3, 1), (4, 1), (3, 2), (2, 3), (4, 3), (5, 3)] + ([] if q else [(5, 4), (7, 2), (8, 3)])
    ex = sidh_builds(c, es)
    jobs = []
    for e in es:
        for rm in (0, 1, 2): jobs += shards(ex[e], "c13", post=(256 if q else 4096, rm))
    jobs = real_jobs(c, [("c13", 8 if q else 60, 4)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every Bob key x messages covering every ephemeral Alice key; ciphertext and both keys compared with the specification"), [REALN, REDUCED])

def C14(c):
    q = c.quick
    es = [(3, 1), (3, 2), (2, 3), (4, 3)] + ([] if q else [(5, 3), (5, 4), (7, 2)])
    ex = sidh_builds(c, es)
    jobs = []
    for e in es:
        for rm in (0, 1, 2) if not q or e != (4, 3) else (2,): jobs += shards(ex[e], "c14", post=((6 if e != (4, 3) else 2) if q else 24, rm))
    jobs = real_jobs(c, [("c14", 1 if q else 6, 8)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="for every Bob key and several messages: every value of every ciphertext byte, every other public key in place of the first part, swapped and zeroed coordinates; the result compared with H(m||ct) or H(s||ct) as specified"), [REALN, REDUCED])

def C15(c):
    q = c.quick
    es = [(2, 1), (3, 1), (3, 2), (2, 3), (4, 3)] + ([] if q else [(5, 3)])
    ex = sidh_builds(c, es)
    jobs = []
    for rm in (0, 1, 2):
        jobs += shards(ex[(2, 1)], "c15", post=(0, rm))
        jobs += shards(ex[(3, 2)], "c15", post=(40 if q else 400, rm))
        jobs += shards(ex[(2, 3)], "c15", post=(6 if q else 120, rm))
    for rm in ((0,) if q else (0, 1)):
        jobs += shards(ex[(3, 1)], "c15", n=64, post=(0, rm))[:(24 if q else 64)]
    if not q:
        jobs += shards(ex[(4, 3)], "c15", n=32, post=(12, 0))
        jobs += shards(ex[(5, 3)], "c15", n=64, post=(3, 0))
    jobs = real_jobs(c, [("c15", 2 if q else 12, 4)]) + jobs
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every triple of coordinates over p=11 (and p=23); for p=71 and p=107 every first coordinate x representatives of every class of the second x every consistent third, on many curves and both singular ones; oracle: group orders"), [REALN, REDUCED, "keys with a zero coordinate are outside (the recovered coefficient is not defined)"])

def C16(c):
    q = c.quick
    x = c.cc([H + "/h_c16.c", SRC + "/sha3/fips202.c"], c.dir + "/c16", ["-O2", *BASE, "-I" + SRC, "-I" + H])
    x2 = c.cc([H + "/h_c16.c", SRC + "/sha3/fips202.c"], c.dir + "/c16s", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", *BASE, "-I" + SRC, "-I" + H])
    c.run(shards(x, n=16, post=(700, 500) if q else (2800, 1400)) + shards(x2, n=8, post=(300, 280)))
    return c.finish("model_checking", mcov(c, rule="every input length x every output length up to the bounds, four content patterns, single-bit inputs; incremental interface in every split into three squeezes; oracle: an independent FIPS 202 implementation"))

def C17(c):
    q = c.quick
    jobs = real_jobs(c, [("c17s", 32 if q else 400, 8), ("c17k", 3 if q else 24, 8)], comp=True)
    note = []
    def op(b):
        for fl, modes in ((["-DELL"], ("dlog2", "dlog3", "ord", "ell")), ([], ("dlog2", "dlog3", "ord"))):
            try: return [(c.field("c17o_%d" % b, b, comp=True, harness="h_c17o.c", flags=fl), modes)]
            except Exception as e: pass
        return []
    ex = pmap(op, (434, 503, 610, 751))
    if not all(x and len(x[0][1]) == 4 for x in ex): note = ["the arithmetic modulo the group orders could not be called on its own (interfaces changed) and was explored through whole key exchanges only"]
    for x in reversed(ex):
        for m in x[0][1] if x else (): jobs += shards(x[0][0], m, n=4, post=(1,))
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="structured secret-key pairs against the textbook shared secret; for several key pairs and messages: every byte of the ciphertext changed, coefficients permuted, negated, scaled and shifted, curve coefficient replaced; oracle: reference decoding of the ciphertext; the arithmetic modulo both group orders on all operands (pairs) of a boundary alphabet and the discrete logarithms of all powers with one non-zero window, runs and boundary exponents, against GMP; the points of the deterministic basis for every counter value on an alphabet of curves"), [REALN, *note])

def C08(c):
    q = c.quick
    x = c.cc([H + "/h_c08os.c", SRC + "/random/random.c"], c.dir + "/c08os", ["-O2", *BASE, "-I" + SRC, "-I" + H])
    k = c.tiny("c08k", "h_c08f.c", poik=False, thr=False)
    pk = [c.tiny("c08p%d" % i, "h_c08f.c", e=e, W=W, Hh=W, reps=r, thr=t) for i, (e, W, r, t) in enumerate([((3, 2), 2, 5, True), ((3, 1), 1, 3, False)])]
    jobs = [[x, "big"]] + shards(x, "os", post=(5, 3) if q else (8, 4)) + shards(k, "kem", n=2)
    for p in pk: jobs += shards(p, "poik", post=(4 if q else 60,))
    jobs += real_jobs(c, [("frand", 0, 1)]) + real_jobs(c, [("frand", 0, 1)], comp=True, tag="c")
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("fault_enumeration", dict(evaluations=c.stats.get("exec", 0), distinct_nontrivial=c.stats.get("states", 0), states=c.stats.get("states", 0), exhaustive=True,
        rule="every schedule of failing opens, failing, interrupted, short and zero reads up to the bound for every request length; every single failing request inside key generation, encapsulation, walk generation and proving"), ["operating-system calls replaced by a scripted stand-in"])

CLI = [(REPO + "/c-impl/prove.c", ["-Dmain=prove_main"]), (REPO + "/c-impl/verify.c", ["-Dmain=verify_main"])]

def C09(c):
    q = c.quick
    cfg = [("a", dict(e=(3, 2), W=2, Hh=2, reps=3)), ("b", dict(e=(4, 3), W=1, Hh=3, reps=2, thr=False, bits=610))]
    ex = pmap(lambda k: c.tiny("c09" + k[0], "h_c09.c", **k[1]), cfg)
    jobs = []
    for x in ex[:1] if q else ex:
        for m in ("text", "round", "write"): jobs += shards(x, m)
    for x in ex[1:] if q else []:
        jobs += shards(x, "round") + shards(x, "write")
    rl = pmap(lambda b: c.real("c09_%d" % b, "h_c09.c", b, poik=True, flags=["-DREAL", "-DPOIK_BITS=%d" % b, "-DNDEBUG"]), (434, 503, 610, 751))
    for x in rl: jobs += shards(x, "big", n=6)
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("fault_enumeration", dict(evaluations=c.stats.get("exec", 0), distinct_nontrivial=c.stats.get("nontriv", 0), states=c.stats.get("states", 0), exhaustive=True,
        rule="every tag pattern, every byte value at every position of the structures; every truncation, every replacement, deletion and insertion of a character of the text; every write failure point; full-size proofs of all four parameter sets"), [REDUCED])

def programs(c, bits):
    """prove and verify for a real parameter set, unreduced, with real threads and the real random source"""
    P = "%s/P%d" % (SRC, bits)
    fl = ["-O3", *BASE, "-march=x86-64-v3", "-madx", "-maes", "-D_FAST_", "-D_MULX_", "-D_ADX_", "-DNDEBUG", "-DTHREADING", "-pthread", "-DPOIK_BITS=%d" % bits, "-I" + SRC]
    lib = [P + "/P%d_poik.c" % bits, P + "/AMD64/fp_x64.c", P + "/AMD64/fp_x64_asm.S", SRC + "/sha3/fips202.c", SRC + "/random/random.c"]
    return [c.cc([REPO + "/c-impl/%s.c" % n, *lib], c.dir + "/%s%d" % (n, bits), fl, link=["-pthread"]) for n in ("prove", "verify")]

def C10(c):
    q = c.quick
    real = [[sys.executable, VERIF + "/ref/cliworker.py", str(b), str(n), str(full), *programs(c, b), c.dir] for b, n, full in ([(434, 2, 0)] if q else [(751, 1, 1), (610, 2, 1), (503, 2, 1), (434, 4, 1)])]
    x = c.tiny("c10", "h_c10.c", e=(3, 2), W=2, Hh=2, reps=5, extra_src=CLI)
    y = c.tiny("c10b", "h_c10.c", e=(5, 3), W=2, Hh=2, reps=4, thr=False, extra_src=CLI)
    jobs = shards(x, "chain", post=(64 if q else 2000,)) + shards(y, "chain", post=(64 if q else 2000,)) + shards(x, "curves")
    if not q: jobs += shards(y, "curves")
    for m in ("ptext", "out"): jobs += shards(x, m)
    jobs += shards(x, "vtext", post=(0 if q else 1,))
    c.run(real + jobs, timeout=400 if q else 3600)
    return c.finish("fault_enumeration", dict(evaluations=c.stats.get("exec", c.stats.get("trans", 0)), distinct_nontrivial=c.stats.get("nontriv", 0), states=c.stats.get("states", 0), exhaustive=True,
        rule="the two programs run in child processes: chains of four prove/verify runs; every coefficient as prover input; every truncation and character change of the inputs; output limited to every number of bytes; every failing random request; independent verdict on each proof; the unreduced programs chained over real primes"), [REDUCED])

SCHED = (["-fsanitize=thread"] + ["-D%s=mc_%s" % (a, a) for a in ("usleep", "sleep", "nanosleep", "sched_yield", "malloc", "calloc", "free")] +
         ["-Dpthread_%s=mc_%s" % (a, a) for a in ("mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock", "cond_init", "cond_destroy", "cond_wait", "cond_signal", "cond_broadcast")])
def C07(c):
    q = c.quick
    ex = dict(pmap(lambda k: (k[0], c.tiny("c07_%d" % k[0], "h_c07.c", e=k[1], W=k[2], Hh=k[2], reps=k[0], tuflags=SCHED, stub=False)), [(2, (3, 2), 2), (3, (3, 2), 1), (4, (4, 3), 1)]))
    r = c.cc([H + "/h_c07r.c", (SRC + "/random/random.c", ["-fsanitize=thread", "-Dopen=mc_open", "-Dread=mc_read", "-Dclose=mc_close", *SCHED[1:]])], c.dir + "/c07r", ["-O2", *BASE, "-I" + SRC, "-I" + H])
    jobs = shards(r, post=(3 if q else 4,))
    k = 1 if q else 6
    jobs += shards(ex[2], "verify", post=(2, 64 * k, 0)) + shards(ex[3], "verify", post=(2, 64 * k, 0)) + shards(ex[3], "verify", post=(3, 8 * k, 0)) + shards(ex[2], "verify", post=(3, 24 * k, 0))
    jobs += shards(ex[2], "verify", post=(1, 8, 1)) + shards(ex[2], "verify", post=(2, 8 * (1 if q else 4), 1))
    jobs += shards(ex[2], "prove", post=(2, 16 * k, 0)) + shards(ex[3], "prove", post=(2, 16 * k, 0)) + shards(ex[2], "prove", post=(1, 8, 1))
    for ph in (0, 1):
        jobs += shards(ex[3], "prove", post=(3, 8 * k, 0, ph)) + shards(ex[2], "prove", post=(2, 8, 1, ph))
        if not q: jobs += shards(ex[4], "prove", post=(3, 8, 0, ph)) + shards(ex[3], "prove", post=(2, 8, 1, ph))
    if not q: jobs += shards(ex[3], "verify", post=(2, 8, 1)) + shards(ex[4], "verify", post=(3, 8, 0))
    jobs += shards(ex[2], "create", n=2, post=(2,)) + shards(ex[3], "create", n=2, post=(3,))
    c.run(jobs, timeout=400 if q else 3600, env={"MC_BUDGET": "40" if q else "900", "MC_RUNS": "20000" if q else "2000000"})
    return c.finish("model_checking", mcov(c, exhaustive=not c.stats.get("capped"), schedules=c.stats.get("schedules", 0), cut_off_as_redundant=c.stats.get("pruned", 0), checked_accesses=c.stats.get("accesses", 0),
        rule="depth-first enumeration with sleep sets of every schedule of the atomic operations and thread calls, 1 to 3 workers; every plain access checked for races; Verify: every set of bad responses of three kinds x several challenges; Prove: validity of the proof; randombytes: concurrent first calls with failing opens and short reads"), [REDUCED, "sequentially consistent interleavings; plain accesses are covered by race detection on each schedule"])

def C11(c):
    q = c.quick
    cfg = [(b, be, comp) for b in (434, 503, 610, 751) for be in ("fast", "generic") for comp in (False, True)]
    ex = dict(pmap(lambda k: (k, c.field("c11_%d%s%d" % (k[0], k[1], k[2]), *k)), cfg))
    jobs = []
    for b in (751, 610, 503, 434):
        for be in ("generic", "fast"):
            x = ex[(b, be, False)]
            for op in ("lin", "mul", "prod", "fp2"):
                if op != "prod" or be == "generic" or b == 751: jobs += shards(x, op, n=4, post=(0 if q else 1,))
            jobs += shards(ex[(b, be, True)], "inv", n=4, post=(0 if q else 1,))
            if not q: jobs += shards(x, "inv", n=4, post=(1,)) + shards(ex[(b, be, True)], "lin", n=4, post=(0,)) + shards(ex[(b, be, True)], "fp2", n=4, post=(0,))
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="all pairs (base field) and all quadruples (extension field) over an alphabet of boundary values: neighbours of multiples of p, powers of two, words 0 and all-ones in every arrangement with few changes, prescribed results, and for the reduction inputs whose column sums sit at a carry boundary; results against GMP, output ranges as documented; four primes, assembly and portable code, in place and not"), ["operands outside the alphabet are not visited"])

CTV = ["-fsanitize-coverage=edge,trace-pc,no-prune,trace-loads,trace-stores", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-g1"]
def C20(c):
    q = c.quick
    P = (751, 610, 503, 434)
    tn = [(5, 3), (4, 3), (7, 2)] if q else [(5, 3), (4, 3), (7, 2), (3, 4), (8, 3), (6, 1)]
    mk = [("t", e) for e in tn] + [(m, b, be) for b in P for be in ("generic", "fast") for m in ("v", "s")]
    def build(k):
        if k[0] == "t": return k, c.tiny("c20t%d_%d" % k[1], "h_c20.c", e=k[1], poik=False, thr=False, opt="-O1", flags=CTV)
        return k, c.real("c20%s%d%s" % k, "h_c20.c", k[1], k[2], opt="-O1", flags=CTV if k[0] == "v" else ["-g1"])
    ex = dict(pmap(build, mk))
    jobs = []
    for b in P:
        jobs += shards(ex[("v", b, "generic")], "c20", post=(3 if b > 434 else 5, 1) if q else (22, 2))
    for b in P:
        jobs += shards(ex[("s", b, "generic")], "step", n=8, post=(0 if q else 1,)) + shards(ex[("s", b, "fast")], "step", n=4, post=(0 if q else 1,))
        jobs += shards(ex[("v", b, "fast")], "c20", n=12, post=(14, 2) if q else (60, 4))
        for be in ("generic", "fast"): jobs += shards(ex[("v", b, be)], "field", n=4, post=(0 if q else 1,))
    for e in tn: jobs += shards(ex[("t", e)], "c20", n=12, post=(60, 6) if q else (400, 16))
    c.run(jobs, timeout=400 if q else 7200)
    return c.finish("model_checking", mcov(c, rule="for each operation and public input, the sequence of branches and memory addresses under every secret (all secrets over reduced fields, a structured alphabet over the four primes, assembly and portable code) equals that of the first secret; the field routines, single-stepped instruction by instruction, over all pairs of a boundary alphabet"),
        ["instrumented build of the C code at -O1 (at -O3 clang turns masks into branches by loop unswitching; what the compiler makes of branch-free source is not judged), addresses inside assembly routines are not seen", "fixed-latency instructions are assumed", "compressed variants and the proof system are not claimed to be constant-time (the sources say so)", REDUCED])

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]
MSAN = ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]
def realpoik(c, name, harness, bits, backend="fast", reps=1, W=2, Hh=2, flags=(), opt="-O3", link=("-lgmp",)):
    """PoIK over a real prime with few repetitions and short chains"""
    return c.real(name, harness, bits, backend, poik=True, opt=opt, link=link, extra_src=[H + "/thr_stub.c"],
        flags=["-DREAL", "-DPOIK_BITS=%d" % bits, "-DNDEBUG", "-DPOIK_MODEL_CHECK", "-I" + H + "/real", "-DPOIK_MODEL_REPS=%d" % reps, "-DPOIK_MODEL_WIDTH=%d" % W, "-DPOIK_MODEL_HEIGHT=%d" % Hh, *THR, *flags])
def C19(c):
    q = c.quick
    k = {"a": lambda: c.tiny("c19a", "h_c19.c", e=(3, 1), W=2, Hh=2, reps=3, flags=SAN, opt="-O1"),
         "b": lambda: c.tiny("c19b", "h_c19.c", e=(4, 3), W=2, Hh=2, reps=2, thr=False, flags=SAN, opt="-O1"),
         "m": lambda: c.tiny("c19m", "h_c19.c", e=(3, 2), W=2, Hh=3, reps=3, flags=MSAN, opt="-O1"),
         "p": lambda: c.tiny("c19p", "h_c09.c", e=(3, 2), W=1, Hh=1, reps=2, flags=SAN, opt="-O1"),
         "pm": lambda: c.tiny("c19pm", "h_c09.c", e=(3, 2), W=1, Hh=1, reps=1, flags=MSAN, opt="-O1")}
    for b in (434, 751) if q else (434, 503, 610, 751):
        k["r%d" % b] = lambda b=b: realpoik(c, "c19r%d" % b, "h_c19.c", b, reps=2, flags=SAN, opt="-O1")
    ex = dict(pmap(lambda n: (n, k[n]()), k))
    jobs = []
    for b in (751, 610, 503, 434):
        if "r%d" % b in ex: jobs += shards(ex["r%d" % b], "vals", post=(0, (37 if b == 434 else 211) if q else 1)) + shards(ex["r%d" % b], "gen", post=(0, (7 if b == 434 else 31) if q else 1))
    jobs += shards(ex["p"], "text", n=16) + shards(ex["pm"], "text", n=8)
    for rm in (0, 1, 2):
        jobs += shards(ex["a"], "vals", post=(rm,)) + shards(ex["a"], "gen", post=(rm,)) + shards(ex["b"], "pairs", post=(rm,))
    for rm in (0, 2):
        jobs += shards(ex["b"], "vals", post=(rm,)) + shards(ex["b"], "gen", post=(rm,)) + shards(ex["m"], "vals", post=(rm, 7 if q else 0)) + shards(ex["m"], "gen", post=(rm, 7 if q else 0)) + shards(ex["m"], "pairs", post=(rm,))
    jobs += shards(ex["a"], "tags") + shards(ex["m"], "tags")
    c.run(jobs, timeout=400 if q else 3600)
    return c.finish("model_checking", mcov(c, rule="every raw encoding (values beyond the prime included) of every curve and kernel field of honest proofs, pairs of fields over a boundary alphabet, every tag value, constant contents, every single-character change and truncation of the text; Verify, Parse, Generate and Prove under AddressSanitizer, UBSan and MemorySanitizer, with a time limit per call"), [REDUCED, "real primes: boundary alphabet only, two repetitions"])
