"""plant.py [ids]: builds seeded/<id>/ from dev/bugs.py, confirming each change in a scratch copy: the stable tests pass, the
demo passes on the unchanged tree and fails with the change. Prints whether the property's own check catches it."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = "e928006"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
ENV.pop("PYTHONPATH", None)
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
"""


def load(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    return d


def edit(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d matches of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    return None


def tests(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = os.path.join(d, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
                    "--junitxml=" + out], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    bad = []
    n = 0
    for tc in ET.parse(out).getroot().iter("testcase"):
        if tc.get("classname") + "::" + tc.get("name") not in stable:
            continue
        if any(c.tag in ("failure", "error") for c in tc):
            bad.append(tc.get("classname") + "::" + tc.get("name"))
        else:
            n += 1
    os.remove(out)
    return n, bad


def run_check(d, prop, seed=1, scale="1"):
    r = subprocess.run([os.path.join(VERIF, "run"), prop], env=dict(ENV, VERIF_REPO=d, VERIF_SEED=str(seed),
                       VERIF_SCALE=scale), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [l for l in r.stdout.strip().splitlines() if not l.startswith('ERROR LOADING')]
    return r.returncode, ("VIOLATION property=%s " % prop) in r.stdout, (lines[0][:200] if lines else "")


def demo(folder, cwd):
    try:
        return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=300, text=True)
    except subprocess.TimeoutExpired:
        return None


def main():
    want = sys.argv[1:]
    for b in load("bugs").BUGS:
        if want and b["id"] not in want:
            continue
        d = scratch()
        try:
            dst = os.path.join(VERIF, "seeded", b["id"])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(dst, "demo.sh"), 0o755)
            open(os.path.join(dst, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
            clean = demo(dst, d)
            subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=d, shell=True)
            err = edit(d, b["edits"])
            if err:
                print(b["id"], "EDIT", err)
                shutil.rmtree(dst)
                continue
            diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            dirty = demo(dst, d)
            n, bad = tests(d)
            rc, caught, line = run_check(d, b["property"])
            ok = clean.returncode == 0 and dirty.returncode != 0 and n >= 48 and not bad
            # removed lines must be lines of the original repository
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            new = []
            for f in {e[0] for e in b["edits"]}:
                orig = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
                new += [l for l in removed if l not in orig and l in open(os.path.join("/repo", f)).read().splitlines()]
            print("%-28s %s %s tests=%d%s demo=%s/%s check=%d %s%s | %s" % (
                b["id"], b["property"], "OK" if ok else "REJECT", n, bad or "", clean.returncode, dirty.returncode, rc,
                "CAUGHT" if caught else "MISSED", " NOT-ORIGINAL %r" % new if new else "", line), flush=True)
            if clean.returncode:
                print(clean.stdout[-1500:])
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
