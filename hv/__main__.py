import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    from hv import core
    mod = importlib.import_module(f"hv.checks.{a.prop.lower()}")
    rc = core.run(mod, a.tier, a.seed, a.replay, a.only)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
