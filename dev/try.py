"""try.py FILE [ids]: like plant.py for changes without demonstration (a list TRY of (id, property, edits)): which are caught?"""
import concurrent.futures
import importlib.util
import os
import shutil
import sys
sys.argv, args = [sys.argv[0], "none"], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant  # noqa: E402

spec = importlib.util.spec_from_file_location("tries", args[0])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)


def one(t):
    id, props, edits = t[:3]
    d = plant.scratch()
    try:
        err = plant.edit(d, edits)
        if err:
            return "%-32s EDIT %s" % (id, err)
        n, bad = plant.tests(d)
        out = []
        for prop in props.split(","):
            rc, caught, line = plant.run_check(d, prop)
            out.append("%s %s" % (prop, "CAUGHT" if caught else "MISSED rc=%d" % rc))
        return "%-32s tests=%d %s %s | %s" % (id, n, "FAIL" if bad else "", " ".join(out), line[:110])
    finally:
        shutil.rmtree(d)


jobs = [t for t in m.TRY if not args[1:] or t[0] in args[1:]]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for r in ex.map(one, jobs):
        print(r, flush=True)
