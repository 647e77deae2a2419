#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = "quick"
    for a in args:
        if a in ("quick", "thorough"): tier = a
    mod = importlib.import_module("checks." + pid.lower())
    if "--replay" in args:
        import json
        rp = json.load(open(args[args.index("--replay") + 1]))
        print(rp["what"]); print(json.dumps(rp["replay"], indent=1)[:8000])
        sys.exit(mod.replay(rp) if hasattr(mod, "replay") else mod.run(tier))
    try:
        rc = mod.run(tier)
    except vlib.BuildError as e:
        print("ERROR: the code under test could not be built for checking:\n%s" % e); rc = 3
    except Exception:
        traceback.print_exc(); rc = 4
    sys.stdout.flush()
    sys.exit(rc)
main()
