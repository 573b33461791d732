#!/usr/bin/env python3-vt
"""run.py ID [--replay FILE] [--sub NAME]...   |   run.py --setup   |   run.py --all"""
import ast, importlib, json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
from vlib import build as B

def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        for d in sorted(f[:-4] for f in os.listdir(os.path.join(ROOT, "harness")) if f.endswith(".cpp")):
            print(d, B.build(d))
        return 0
    from vlib import core
    pid = a[0]
    mod = importlib.import_module("checks." + pid.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    sd = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in a:
        d = json.load(open(a[a.index("--replay") + 1]))
        s = [x for x in mod.SUBS if x.name == d["sub"]][0]
        msg = core.replay_case(s, B.build(s.driver, s.opts), ast.literal_eval(d["case"]), core.load_known(pid))
        print("case:", d["case"])
        print("reproduced: " + msg if msg else "did not fail")
        if msg:
            print("VIOLATION property=%s replay=%s" % (pid, a[a.index("--replay") + 1]))
        return 1 if msg else 0
    only = [a[i + 1] for i, x in enumerate(a) if x == "--sub"] or None
    scale = float(a[a.index("--scale") + 1]) if "--scale" in a else 1.0
    try:
        return core.run_check(pid, mod, tier, sd, only, scale)
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
sys.exit(main())
