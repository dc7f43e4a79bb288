"""mkseed.py: writes seeded/<id>/patch.diff from textual edits: mkseed(id, prop, needs, breaks, [(file, old, new)])"""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(sid, prop, needs, breaks, edits):
    S = V + "/seeded/" + sid; os.makedirs(S, exist_ok=True)
    W = "/tmp/mkseed"; shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    os.makedirs(W); subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git -c core.autocrlf=false add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (W, W), shell=True, check=True)
    for f, old, new in edits:
        p = W + "/c-impl/" + f; b = open(p, "rb").read()
        if b"\r\n" in b: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert b.count(old.encode()) == 1, (f, old, b.count(old.encode()))
        open(p, "wb").write(b.replace(old.encode(), new.encode()))
    d = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, check=True).stdout
    open(S + "/patch.diff", "wb").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
