#!/usr/bin/env python3
"""check.py <property id>: decides one property against /repo's working tree (tier and seed from VERIF_TIER/VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
REG, INFO = {}, {}
for m in ("orderbook", "pool", "simulation", "transfers", "concurrency", "identity", "values", "exchange", "economy", "outputs", "design", "markets", "rendering", "archive", "numeric", "codes", "feed"):
    mod = importlib.import_module("checks." + m)
    REG.update(mod.CHECKS)
    INFO.update(mod.INFO)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    c = vlib.Check(pid)
    try:
        REG[pid](c)
        return c.finish()
    except vlib.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
