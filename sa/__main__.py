import argparse, importlib, os, pkgutil, sys
from . import chk, checks
def main():
    ap = argparse.ArgumentParser(prog="sa")
    ap.add_argument("cmd", choices=["check", "all", "list", "front"])
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.cmd == "front":
        from .prog import Prog
        P = Prog(); print(P.stats, len(P.defs)); return 0
    for m in pkgutil.iter_modules(checks.__path__): importlib.import_module("sa.checks." + m.name)
    if a.cmd == "list":
        print("\n".join(sorted(chk.REG))); return 0
    ids = a.ids or sorted(chk.REG)
    rc = 0
    for i in ids:
        if i not in chk.REG: print("unknown property " + i); return 2
        r = chk.run(i, a.tier, a.seed)
        if r == 1 or rc == 1: rc = 1
        elif r: rc = r
    return rc
sys.exit(main())
