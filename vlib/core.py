"""Engine shared by every check: seeded Hypothesis search, shrinking, replay files, evidence.

A check is a list of `Sub`s. Each one pairs a Hypothesis strategy, which draws a JSON value (the *case*: an input, a
configuration, or a history of operations), with a plain function `run(case)` which drives the real code, compares it with
an oracle and raises `Violation` on disagreement. `run` never draws anything, so a saved case replays without Hypothesis.
"""
import hashlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 60  # seconds of processor time; a case takes milliseconds, so this means the code under test does not terminate
CASE_WALL = 240  # the same for code which waits


class Violation(Exception):
    """the code under test disagrees with the oracle"""


class HarnessError(Exception):
    """the harness itself is wrong"""


class CaseTimeout(Exception):
    pass


class StopShrinking(KeyboardInterrupt):
    """ends a Hypothesis run early; Hypothesis lets KeyboardInterrupt through"""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    """what a case exercised: `nontrivial` by the rule of its Sub, and labels for the distribution in the evidence"""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, run, rule, quick, thorough=None, known=None, patience=1):
        self.name = name
        self.patience = patience  # factor for the time a case may take
        self.strategy = strategy  # callable -> SearchStrategy (Hypothesis is imported late)
        self.run = run  # run(case, info)
        self.rule = rule
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20


class Exhaustive:
    """a finite space which is enumerated completely"""

    def __init__(self, name, cases, run, rule, spread=False, patience=1):
        self.name = name
        self.patience = patience
        self.cases = cases  # callable -> iterable of cases
        self.run = run
        self.rule = rule
        self.spread = spread  # shared out among the workers


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, bytes):
        return o.hex()
    raise HarnessError("case is not JSON: %r" % (o,))


def _alarm(signum, frame):
    raise CaseTimeout()


def execute(sub, case):
    """run one case. Returns (info, None) or (info, message)"""
    info = Info()
    old = [(s, signal.signal(s, _alarm)) for s in (signal.SIGALRM, signal.SIGVTALRM)]
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_TIMEOUT * sub.patience)
    signal.alarm(CASE_WALL * sub.patience)
    try:
        sub.run(case, info)
        return info, None
    except Violation as e:
        return info, str(e)
    except CaseTimeout:
        return info, "did not terminate within %d s" % (CASE_TIMEOUT * sub.patience)
    except HarnessError:
        raise
    except MemoryError:
        raise
    except Exception as e:  # the code under test raised, or returned something which cannot be interpreted
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        loc = where[-1] if where else tb[-1]
        return info, "%s: %s (at %s:%s)" % (type(e).__name__, e, os.path.relpath(loc.filename, REPO), loc.name)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for s, h in old:
            signal.signal(s, h)


class Result:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None  # (case json, message)
        self.error = None
        self.exhaustive = False

    def count(self, case, info):
        self.evaluations += 1
        text = canon(case)
        for lab in info.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if info.nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 and len(text) < 1500:
                    self.samples.append(json.loads(text))
        return text


def run_sub(sub, seed, n, shrink_s=float(os.environ.get("VERIF_SHRINK", "40")), part=(0, 1), simplest=True):
    """search one Sub with one derived seed; the simplest case, with which Hypothesis starts, can be left to others"""
    res = Result(sub.name)
    if isinstance(sub, Exhaustive):
        res.exhaustive = True
        for case in list(sub.cases())[part[0]::part[1]]:
            info, msg = execute(sub, case)
            text = res.count(case, info)
            if msg is not None and (res.failure is None or len(text) < len(res.failure[0])):
                res.failure = (text, msg)
                break
        return res
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    state = {"since": None, "skip": not simplest}

    def body(case):
        if state["skip"]:
            state["skip"] = False
            return
        info, msg = execute(sub, case)
        text = res.count(case, info)
        if msg is not None:
            if res.failure is None or len(text) < len(res.failure[0]):
                res.failure = (text, msg)
            if state["since"] is None:
                state["since"] = time.monotonic()
            if time.monotonic() - state["since"] > shrink_s or msg.startswith("did not terminate"):
                raise StopShrinking()
            raise Violation(msg)
        if state["since"] is not None and time.monotonic() - state["since"] > shrink_s:
            raise StopShrinking()

    test = hypothesis.given(sub.strategy())(body)
    test = settings(max_examples=n + (not simplest), database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    print_blob=False, suppress_health_check=list(HealthCheck),
                    phases=(Phase.explicit, Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except StopShrinking:
        pass
    except HarnessError:
        raise
    except BaseException as e:
        if res.failure is None:
            raise HarnessError("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
    return res


def derive(seed, *parts):
    h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=4).digest()
    return int.from_bytes(h, "big")


def _worker(conn, subs, seed, worker, workers, scale, tier):
    sys.stdout = open(os.devnull, "w")
    out = []
    try:
        for sub in subs:
            part = (0, 1)
            if isinstance(sub, Exhaustive):
                if sub.spread:
                    part = (worker, workers)
                elif worker:
                    continue
                n = 0
            else:
                total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
                n = max(1, math.ceil(total / workers))
            try:
                out.append(run_sub(sub, derive(seed, sub.name, worker), n, part=part, simplest=worker == 0))
            except BaseException as e:
                r = Result(sub.name)
                r.error = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
                out.append(r)
                break
            if out[-1].failure:
                break
        conn.send(out)
    finally:
        conn.close()
        os._exit(0)


def search(subs, seed, tier, workers, scale):
    """run all Subs on several worker processes; returns {name: Result}"""
    procs = []
    ctx = multiprocessing.get_context("fork")
    for w in range(workers):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(b, subs, seed, w, workers, scale, tier))
        p.start()
        b.close()
        procs.append((p, a))
    merged = {s.name: Result(s.name) for s in subs}
    for p, a in procs:
        try:
            results = a.recv()
        except EOFError:
            r = Result(subs[0].name)
            r.error = "worker died"
            results = [r]
        p.join()
        for r in results:
            m = merged[r.name]
            m.evaluations += r.evaluations
            m.hashes |= r.hashes
            m.exhaustive = m.exhaustive or r.exhaustive
            for k, v in r.labels.items():
                m.labels[k] = m.labels.get(k, 0) + v
            m.samples = (m.samples + r.samples)[:3]
            if r.failure and (m.failure is None or (len(r.failure[0]), r.failure[0]) < (len(m.failure[0]), m.failure[0])):
                m.failure = r.failure
            m.error = m.error or r.error
    return merged


def known_findings(prop):
    """(id, text) of the findings listed for a property in the committed file"""
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):  # "fixed:" lines and comments suppress nothing
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def main(prop, subs, seed, tier, workers=8, scale=1.0, assumptions=(), probes=(), only=None):
    t0 = time.time()
    if only:
        subs = [s for s in subs if s.name in only]
    merged = search(subs, seed, tier, workers, scale)
    errors = [(n, r.error) for n, r in merged.items() if r.error]
    fails = [(n, r.failure) for n, r in merged.items() if r.failure]
    known = known_findings(prop)
    status = 0
    for key, probe in probes:
        try:
            broken = probe()
        except Exception as e:  # not what is known
            broken, key = "%s: %s" % (type(e).__name__, e), key + "-raised"
        if broken and key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        elif broken:
            fails.append(("probe:" + key, (canon({"probe": key}), "%s: %s" % (key, broken))))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for n, (text, msg) in fails:
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, n.replace(":", "_")))
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": n, "message": msg, "seed": seed, "case": json.loads(text)}, f, indent=1)
        print("%s/%s: %s" % (prop, n, msg))
        print("  minimal case: %s" % (text if len(text) < 2000 else text[:2000] + "..."))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evaluations for r in merged.values()),
            "distinct_nontrivial": sum(len(r.hashes) for r in merged.values()),
            "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": [{"sub": n, "case": c} for n, r in merged.items() for c in r.samples[:2]],
            "per_sub": {n: {"evaluations": r.evaluations, "distinct_nontrivial": len(r.hashes),
                            "enumerated_completely": r.exhaustive,
                            "labels": dict(sorted(r.labels.items()))} for n, r in merged.items()},
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if errors and not status:
        for n, e in errors:
            print("HARNESS ERROR in %s/%s: %s" % (prop, n, e), file=sys.stderr)
        return 2
    if not status:
        print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
            prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return status


def replay(prop, subs, path):
    with open(path) as f:
        data = json.load(f)
    sub = next((s for s in subs if s.name == data["sub"]), None)
    if sub is None:
        print("no such sub-check: %s" % data["sub"], file=sys.stderr)
        return 2
    info, msg = execute(sub, data["case"])
    if msg is None:
        print("%s/%s: case passes" % (prop, sub.name))
        return 0
    print("%s/%s: %s" % (prop, sub.name, msg))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
