"""C26: relabelling clusters keeps the clustering and restores the names of a right one"""
import importlib
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check

relabel = importlib.import_module("runs.clsutering_analysis.functions").relabel
ASSUMPTIONS = ["labels are numbered from zero; without true labels the classes take turns and every class occurs equally often"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    consecutive = draw(st.booleans())
    if consecutive:
        size = n * draw(st.integers(1, 6))
        real = [i % n for i in range(size)]
    else:
        real = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=30))
    perm = draw(st.permutations(range(n)))
    pred = [perm[r] for r in real]
    for i, v in draw(st.lists(st.tuples(st.integers(0, len(real) - 1), st.integers(0, n - 1)), max_size=draw(
            st.sampled_from([0, 0, 3, 30])))):
        pred[i] = v
    return {"n": n, "real": real, "perm": list(perm), "pred": pred, "consecutive": consecutive,
            "dtype": draw(st.sampled_from(["int64", "int32", "int64", "uint8"]))}


def run(case, info):
    n = case["n"]
    real = np.array(case["real"])
    pred = np.array(case["pred"], dtype=case["dtype"])
    pred0, real0 = pred.copy(), real.copy()
    out, mapping = relabel(pred, n) if case["consecutive"] else relabel(pred, n, real)
    check(np.array_equal(pred, pred0) and np.array_equal(real, real0), "relabelling modified its arguments")
    out = np.asarray(out)
    check(out.shape == pred.shape and np.all((out >= 0) & (out < n)), "labels %s of %d classes", out, n)
    counts = np.zeros((n, n), dtype=int)  # predicted, real
    for p, r in zip(case["pred"], case["real"]):
        counts[p, r] += 1
    for p in range(n):
        new = set(out[pred0 == p].tolist())
        check(len(new) <= 1, "cluster %d was split to %s", p, new)
        if new:
            check(int(mapping[p]) == new.pop(), "cluster %d is not named as the map says", p)
    names = {int(p): int(r) for p, r in mapping.items()}
    check(sorted(names) == list(range(n)) and sorted(names.values()) == list(range(n)), "the map %s isn't one to one", names)
    # agreements are kept from the largest to the smallest, among the clusters and classes which are left
    left, clusters, classes = dict(names), set(range(n)), set(range(n))
    while left:
        top = max(counts[p, r] for p in clusters for r in classes)
        kept = [(p, r) for p, r in left.items() if counts[p, r] == top]
        check(kept, "the largest agreement of those left (%d of clusters %s with classes %s) isn't kept by %s", top, clusters, classes,
              names)
        for p, r in kept:
            left.pop(p)
            clusters.discard(p)
            classes.discard(r)
    right = all(p == case["perm"][r] for p, r in zip(case["pred"], case["real"]))
    if right:
        check(np.array_equal(out, real), "a perfect clustering became %s, expected %s", out, real)
    info.label("perfect" if right else "imperfect", "classes:%d" % n)
    info.mark(n > 1 and len(set(case["real"])) > 1)


def run_large(case, info):
    rs = np.random.RandomState(case["seed"])
    n = case["n"]
    real = np.arange(n * max(1, case["size"] // n)) % n if case["consecutive"] else rs.randint(0, n, case["size"])
    perm = rs.permutation(n)
    pred = np.where(rs.random_sample(len(real)) < case["noise"], rs.randint(0, n, len(real)), perm[real])
    run({"n": n, "real": real.tolist(), "perm": perm.tolist(), "pred": pred.tolist(), "consecutive": case["consecutive"],
         "dtype": "int64"}, info)


def subs():
    return [Sub("large", lambda: st.fixed_dictionaries({"n": st.integers(2, 14), "size": st.integers(20, 800), "seed": st.integers(0, 2 ** 16),
                                                        "consecutive": st.booleans(), "noise": st.sampled_from([0.0, 0.05, 0.4])}),
                run_large, "as relabel, up to 14 classes and 800 labels", 160, 1600),
            Sub("relabel", cases, run,
                "true classes and a renamed clustering of them with generated mistakes; non-trivial with two or more classes",
                2000, 40000)]
