"""tryseed.py ID... : validates planted changes in a scratch copy: applies, builds, demo passes on the clean copy and
fails on the changed one, stable tests pass, and which check reports it (developer tool, not used by any check)."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, to=900, **k):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e: return 124, "timeout"
notest = "--notest" in sys.argv; nocheck = "--nocheck" in sys.argv
for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
    S = V + "/seeded/" + sid; W = "/tmp/sd_" + sid; O = W + "/opt"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(O)
    sh("cp -a /repo %s/repo; cp /opt/vp/* %s/; sed -i 's#/repo#%s/repo#g; s#/opt/vp#%s#g' %s/*.sh %s/*.py" % (W, O, W, O, O, O))
    R = W + "/repo"; D = W + "/demo"; shutil.copytree(S, D)
    for f in ("patch.diff", "meta.json"): os.path.exists(D + "/" + f) and os.remove(D + "/" + f)
    res = {}
    sh("bash %s/build.sh" % O)
    res["demo_clean"], o = sh("bash %s/demo.sh" % D, 300, cwd=R)
    if res["demo_clean"]: print(o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % S, cwd=R)
    if rc: print(sid, "does not apply", o); continue
    res["build"], o = sh("bash %s/build.sh" % O)
    if res["build"]: print(o[-1500:])
    res["demo_patched"], o = sh("bash %s/demo.sh" % D, 300, cwd=R)
    print("   demo says:", o[-300:].strip().replace("\n", " | "))
    prop = json.load(open(S + "/meta.json"))["property"]
    if not nocheck:
        e = dict(os.environ, VP_REPO=R)
        res["check"], o = sh("python3 run.py %s quick" % prop, 900, cwd=V, env=e); print("   check:", o[-400:].strip().replace("\n", " | "))
    if not notest:
        sh("bash %s/test.sh %s/out.json" % (O, W), 1200)
        try:
            p = set(json.load(open(W + "/out.json"))["passed"]); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            res["lost_tests"] = sorted(set(b) - p)[:4]
        except Exception as ex: res["lost_tests"] = str(ex)
    ok = res["demo_clean"] == 0 and res["demo_patched"] not in (0,) and not res["build"] and not res.get("lost_tests")
    print(sid, prop, "OK" if ok else "BAD", res, flush=True)
    shutil.rmtree(W, ignore_errors=True)
