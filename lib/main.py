import importlib
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:1] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]

import repoimport
repoimport.install()
logging.disable(logging.CRITICAL)

import vh


def main():
    args = sys.argv[1:]
    if args and args[0] == "--selftest":
        import selftest
        return selftest.main()
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(prop.lower())
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            r = json.load(f)
        out = vh.run_case(mod, r["kind"], r["index"], r["seed"], r["tier"])
        print(json.dumps({k: out[k] for k in ("kind", "index", "violation", "error", "sample")}, indent=1))
        if out["violation"]:
            print("VIOLATION property=%s replay=%s" % (prop, args[args.index("--replay") + 1]))
        return 1 if out["violation"] else 2 if out["error"] else 0
    return vh.run_check(mod, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE: the harness failed")
        sys.exit(2)
