"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--workers N] [--scale X] [--only sub,...]"""
import argparse
import importlib
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import core  # noqa: E402
from vlib import boot  # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    try:
        mod = importlib.import_module("checks." + a.property.lower())
        subs = mod.subs()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(core.REPO + os.sep) for f in tb):
            # the code under test cannot even be imported
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", a.property + "-import.txt")
            with open(path, "w") as f:
                f.write(traceback.format_exc())
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (a.property, path))
            return 1
        raise
    if a.replay:
        return core.replay(a.property, subs, a.replay)
    return core.main(a.property, subs, a.seed, a.tier, a.workers, a.scale, getattr(mod, "ASSUMPTIONS", ()),
                     getattr(mod, "probes", lambda: ())(), a.only.split(",") if a.only else None)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
