"""mut.py FILE [name...]: developer tool; FILE is Python defining M = [(name, prop(s), file below c-impl, old, new)].  Applies each
change to a scratch copy of the tree and runs the quick check(s) against it (VP_REPO)."""
import sys, os, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
W = "/tmp/mut_%d" % os.getpid()
for name, props, f, old, new in ns["M"]:
    if want and name not in want: continue
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
    p = W + "/c-impl/" + (f if f.endswith((".c", ".h", ".S")) and "/" in f or f in ("prove.c", "verify.c") else "PQCrypto-SIDH/src/" + f)
    if not os.path.exists(p): p = W + "/c-impl/PQCrypto-SIDH/src/" + f
    b = open(p, "rb").read(); crlf = b"\r\n" in b; t = b.replace(b"\r\n", b"\n").decode("latin1")
    if t.count(old) < 1: print(name, "PATTERN NOT FOUND"); continue
    if t.count(old) > 1: print(name, "(pattern occurs %d times, first one changed)" % t.count(old))
    t = t.replace(old, new, 1); b = t.encode("latin1"); open(p, "wb").write(b.replace(b"\n", b"\r\n") if crlf else b)
    for prop in props.split():
        r = subprocess.run([sys.executable, "run.py", prop, "quick"], cwd=V, env=dict(os.environ, VP_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        m = re.search(r"in (\d+\.\d) s", r.stdout); l = [x for x in r.stdout.splitlines() if x.startswith("  ")]
        print("%-28s %s %s rc=%d %s s %s" % (name, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), r.returncode, m and m.group(1), (l[0][:150] if l else r.stdout[-300:].replace("\n", "|") if r.returncode not in (0, 1) else "")), flush=True)
    shutil.rmtree(W, ignore_errors=True)
