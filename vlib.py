"""Driver library: builds harnesses from /repo's current tree, runs them in parallel, collects
counters and violations, writes evidence."""
import os, sys, json, time, subprocess, threading, hashlib, signal, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/c-impl/PQCrypto-SIDH/src"
BUILD = VERIF + "/.build"
NCPU = os.cpu_count() or 8
H = VERIF + "/h"
TINY = VERIF + "/tiny"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))

_params_lock = threading.Lock()
def params(e2, e3, d):
    """tiny_params.h for p = 2^e2 3^e3 - 1"""
    os.makedirs(d, exist_ok=True)
    with open(d + "/tiny_params.h", "w") as f:
        f.write(sh([sys.executable, TINY + "/gen_params.py", str(e2), str(e3)]))
    return d

THR = ["-DTHREADING", "-Dpthread_create=mc_pthread_create", "-Dpthread_join=mc_pthread_join", "-Dsysconf=mc_sysconf"]
BASE = ["-w", "-std=gnu11", "-D_AMD64_", "-D__NIX__"]

class Ctx:
    """one check run"""
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = "%s/%s-%s" % (BUILD, pid, tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.stats = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.notes = []
        self.jobs_run = 0

    # ---- building -------------------------------------------------------------------------
    def cc(self, srcs, out, flags, cc="clang", link=()):
        d = out + ".o.d"
        os.makedirs(d, exist_ok=True)
        objs = []
        def one(i_s):
            i, s = i_s
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            o = "%s/%d_%s.o" % (d, i, os.path.basename(s))
            sh([cc, *flags, *extra, "-c", s, "-o", o])
            return o
        objs = pmap(one, list(enumerate(srcs)))
        sh([cc, *[f for f in flags if f.startswith("-fsanitize") or f == "-g"], *objs, "-o", out, *link])
        return out

    def tiny(self, name, harness, e=(3, 1), W=1, Hh=1, reps=1, poik=True, thr=True, bits=434, flags=(), opt="-O2", cc="clang", extra_src=(), hflags=(), tuflags=(), stub=True):
        """the real sources over a reduced field, linked with a harness"""
        pd = params(*e, self.dir + "/" + name + ".p")
        fl = [opt, *BASE, "-D_GENERIC_", "-DPOIK_MODEL_CHECK", "-DPOIK_BITS=%d" % bits, "-DNDEBUG",
              "-DPOIK_MODEL_WIDTH=%d" % W, "-DPOIK_MODEL_HEIGHT=%d" % Hh,
              *(["-DPOIK_MODEL_REPS=%d" % reps] if reps else []),
              *(["-DMC_POIK"] if poik else []), *(THR if thr else []),
              "-I" + SRC, "-I" + TINY, "-I" + H, "-I" + pd, *flags]
        srcs = [*[(s, list(tuflags)) for s in (TINY + "/tiny_unit.c", TINY + "/fp_tiny.c", SRC + "/sha3/fips202.c")],
                (H + "/" + harness, list(hflags)), *extra_src]
        if thr and stub:
            srcs.append(H + "/thr_stub.c")
        return self.cc(srcs, self.dir + "/" + name, fl, cc=cc)

    def real(self, name, harness, bits, backend="fast", comp=False, poik=False, flags=(), opt="-O3", cc="clang", extra_src=(), link=()):
        """the real sources over a real prime, linked with a harness"""
        P = "%s/P%d" % (SRC, bits)
        fl = [opt, *BASE, "-march=x86-64-v3", "-madx", "-maes", "-DBITS=%d" % bits, "-I" + SRC, "-I" + H, *(["-DCOMP"] if comp else []), *flags]
        if backend == "fast":
            fl += ["-D_FAST_", "-D_MULX_", "-D_ADX_"]
            be = [P + "/AMD64/fp_x64.c", P + "/AMD64/fp_x64_asm.S"]
        else:
            fl += ["-D_GENERIC_"]
            be = [P + "/generic/fp_generic.c"]
        main = "%s/P%d%s.c" % (P, bits, "_compressed" if comp else "_poik" if poik else "")
        return self.cc([main, *be, SRC + "/sha3/fips202.c", H + "/" + harness, *extra_src], self.dir + "/" + name, fl, cc=cc, link=link)

    def field(self, name, bits, backend="fast", comp=False, harness="h_c11.c", flags=()):
        """the harness with the parameter-set source included (its static functions are visible)"""
        P = "%s/P%d" % (SRC, bits)
        fl = ["-O3", *BASE, "-march=x86-64-v3", "-madx", "-maes", "-I" + SRC, "-I" + H, '-DINC="P%d/P%d%s.c"' % (bits, bits, "_compressed" if comp else "")]
        fl += ["-D_FAST_", "-D_MULX_", "-D_ADX_"] if backend == "fast" else ["-D_GENERIC_"]
        be = [P + "/AMD64/fp_x64.c", P + "/AMD64/fp_x64_asm.S"] if backend == "fast" else [P + "/generic/fp_generic.c"]
        return self.cc([H + "/" + harness, *be, SRC + "/sha3/fips202.c"], self.dir + "/" + name, [*fl, *flags], link=["-lgmp"])

    # ---- running --------------------------------------------------------------------------
    def run(self, jobs, timeout=400, par=None, env=None):
        """jobs: list of argv (or (argv, label)); protocol lines S/X/V/K/DONE on stdout"""
        if self.quick: timeout = min(timeout, 400)
        known = load_known(self.pid)
        stop = threading.Event()
        def one(j):
            argv, label = j if isinstance(j, tuple) else (j, None)
            left = (800 if self.quick else 20000) - (time.time() - self.t0)
            if stop.is_set(): return None
            label = label or " ".join(os.path.basename(a) if i == 0 else a for i, a in enumerate(argv))
            e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0"); e.update(env or {})
            try:
                p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=e, start_new_session=True)
                to = False
                try:
                    out, err = p.communicate(timeout=max(5, min(timeout, left)))
                except subprocess.TimeoutExpired:
                    to = True
                    os.killpg(p.pid, signal.SIGKILL)
                    out, err = p.communicate()
            except OSError as ex:
                raise BuildError(str(ex))
            if to or any(l.startswith(b"V ") and not any(k in l.decode(errors="replace") for k in known) for l in out.splitlines()): stop.set()
            return argv, label, p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), to
        res = pmap(one, jobs, par)
        for argv, label, rc, out, err, to in (r for r in res if r):
            self.jobs_run += 1
            done = False
            nv = 0
            for l in out.splitlines():
                if l.startswith("S "):
                    _, k, v = l.split()
                    self.stats[k] = self.stats.get(k, 0) + int(v)
                elif l.startswith("X "):
                    if len(self.samples) < 40: self.samples.append(label + ": " + l[2:])
                elif l.startswith("V "):
                    nv += 1
                    self.violation(l[2:], argv)
                elif l.startswith("K "):
                    self.known.append(l[2:])
                elif l == "DONE":
                    done = True
            if to:
                self.violation("no verdict within %d s: %s" % (timeout, label), argv)
            elif not nv and (rc != 0 or not done):
                if rc == 3:
                    raise BuildError("harness error in %s:\n%s" % (label, (out[-800:] + err[-2000:])))
                self.violation("abnormal end (status %s) of %s: %s" % (rc, label, (err or out)[-1500:].replace("\n", " | ")), argv)
        return res

    def violation(self, text, argv=()):
        self.viol.append((text, list(argv)))

    # ---- result ---------------------------------------------------------------------------
    def finish(self, level, coverage, assumptions=()):
        wall = time.time() - self.t0
        viol = []
        known = load_known(self.pid)
        for text, argv in self.viol:
            k = next((e for e in known if e in text), None)
            if k:
                if k not in self.known: self.known.append(k)
            else:
                viol.append((text, argv))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        coverage.setdefault("samples", (self.samples or ["none"])[:20])
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": level,
              "coverage": coverage, "wall_s": round(wall, 2)}
        if assumptions: ev["assumptions"] = list(assumptions)
        ev["violations"] = [t for t, _ in viol][:50]
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("%s %s: %s in %.1f s" % (self.pid, self.tier, json.dumps({k: v for k, v in coverage.items() if isinstance(v, (int, bool))}), wall))
        if not viol:
            shutil.rmtree(self.dir, ignore_errors=True)
            return 0
        rd = BUILD + "/replay"; os.makedirs(rd, exist_ok=True)
        rp = "%s/%s-%s.txt" % (rd, self.pid, self.tier)
        with open(rp, "w") as f:
            for t, a in viol[:50]:
                f.write("%s\n  command: %s\n" % (t, " ".join(a)))
        for t, _ in viol[:5]:
            print("  " + t[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1

def load_known(pid):
    out = []
    fn = VERIF + "/known_findings.txt"
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out
