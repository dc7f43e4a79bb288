#!/usr/bin/env python3
"""run.py <property> <quick|thorough>   (property 'setup' only checks the tools)"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib, checks
def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if pid == "setup":
        for t in ("clang --version", "gcc --version"):
            print(vlib.sh(t.split()).splitlines()[0])
        return 0
    ctx = vlib.Ctx(pid, tier)
    try:
        return getattr(checks, pid)(ctx)
    except vlib.BuildError as ex:
        print("ERROR: %s" % ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
sys.exit(main())
