"""C10: probability, entropy, typical sets and Hellinger distance follow their definitions"""
import math
from collections import Counter
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check
from utils.custom_exceptions import UnsupportedDtype
from utils.information_theory import entropy, hellinger, prob, prob_with_alphabet, typical_set_cardinality

INT_TYPES = ["int64", "uint8", "int8", "int32", "uint16"]
TOL = 1e-9


@st.composite
def data_arrays(draw):
    dt = draw(st.sampled_from(INT_TYPES + ["bool", "str"]))
    rows = draw(st.integers(1, 5))
    cols = draw(st.integers(1, 8))
    if dt == "bool":
        el = st.booleans()
    elif dt == "str":
        el = st.sampled_from(["a", "b", "bb", "c"])
    else:
        lo, hi = (0, 255) if dt == "uint8" else (-128, 127) if dt == "int8" else (0, 60000) if dt == "uint16" else (-2 ** 31, 2 ** 31 - 1)
        el = draw(st.sampled_from([st.integers(0, 1), st.integers(0, 3), st.integers(lo, hi)]))
    one = draw(st.booleans())
    data = draw(st.lists(el, min_size=cols, max_size=cols)) if one else draw(
        st.lists(st.lists(el, min_size=cols, max_size=cols), min_size=rows, max_size=rows))
    return {"dtype": dt, "data": data, "order": draw(st.sampled_from(["C", "F"]))}


def run_prob(case, info):
    arr = np.array(case["data"], dtype=None if case["dtype"] == "str" else case["dtype"], order=case["order"])
    keep = arr.copy()
    pr, alphabet = prob_with_alphabet(arr)
    check(np.array_equal(arr, keep), "the data were modified")
    rows = [list(arr)] if arr.ndim == 1 else [list(r) for r in arr]
    symbols = sorted({x.item() if hasattr(x, "item") else x for r in rows for x in r})
    check(list(alphabet) == symbols, "alphabet %s, expected %s", alphabet, symbols)
    got = np.atleast_2d(np.asarray(pr, dtype=float))
    check(np.asarray(pr).ndim == arr.ndim and got.shape == (len(rows), len(symbols)), "shape %s", np.shape(pr))
    for i, r in enumerate(rows):
        cnt = Counter(x.item() if hasattr(x, "item") else x for x in r)
        want = [cnt[s] / len(r) for s in symbols]
        check(np.allclose(got[i], want, rtol=0, atol=TOL), "row %d: %s, expected %s", i, got[i].tolist(), want)
    check(np.allclose(np.asarray(prob(arr), dtype=float), np.asarray(pr, dtype=float), rtol=0, atol=TOL), "prob and prob_with_alphabet differ")
    # the estimate is a distribution whose entropy is at most log of the alphabet size
    ent = np.atleast_1d(entropy(np.asarray(pr, dtype=float)))
    check(np.all(ent >= -TOL) and np.all(ent <= math.log2(max(len(symbols), 1)) + 1e-9), "entropy %s", ent)
    info.label(case["dtype"], "%dD" % arr.ndim)
    info.mark(len(symbols) > 1)


def run_large(case, info):
    rs = np.random.RandomState(case["seed"])
    shape = (case["cols"],) if case["rows"] == 0 else (case["rows"], case["cols"])
    hi = {"uint8": 256, "int8": 128, "int64": 10 ** 6, "uint16": 60000}[case["dtype"]]
    data = rs.randint(0, min(case["alphabet"], hi), shape) * max(1, (hi - 1) // case["alphabet"])
    if case["skew"]:  # almost constant: one symbol has nearly all of the counts
        data = np.where(rs.random_sample(shape) < case["skew"], data, 0)
    if case["dtype"] == "int8":
        data = data - 64
    run_prob({"dtype": case["dtype"], "data": data.tolist(), "order": "C"}, info)
    k = case["alphabet"]
    p, q = rs.randint(0, 50, (max(1, case["rows"]), k)) + 1, rs.randint(0, 50, (max(1, case["rows"]), k))
    q[:, 0] += 1
    run_pmf({"p": p.tolist(), "q": q.tolist(), "same": case["seed"] % 3 == 0, "base": 2, "flat": case["rows"] == 0}, info)


def run_refuse(case, info):
    if case["kind"] == "float":
        arr = np.zeros(case["shape"], dtype=case["dtype"])
        for f in (prob, prob_with_alphabet):
            try:
                f(arr)
            except UnsupportedDtype:
                continue
            check(False, "%s accepted %s", f.__name__, case["dtype"])
    elif case["kind"] == "dims":
        shape = (1,) * case["n"]
        for f, a in ((prob, np.zeros(shape, dtype=int)), (prob_with_alphabet, np.zeros(shape, dtype=int)),
                     (entropy, np.ones(shape))):
            try:
                f(a)
            except ValueError:
                continue
            check(False, "%s accepted %d dimensions", f.__name__, case["n"])
    elif case["kind"] == "hellinger":
        a, b = np.full((1,) * case["n"], 1.0), np.full((1,) * case["m"], 1.0)
        try:
            hellinger(a, b)
        except ValueError:
            info.mark()
            return
        check(case["n"] == case["m"] and case["n"] in (1, 2), "distance of %d and %d dimensions", case["n"], case["m"])
    else:
        try:
            typical_set_cardinality(case["n"], pk=np.array([0.5, 0.5]) if case["pk"] else None,
                                    ent=1.0 if case["ent"] else None, eps=case["eps"])
        except ValueError:
            check(case["n"] <= 0 or case["eps"] <= 0 or not (case["pk"] or case["ent"]), "refused %s", case)
            info.mark()
            return
        check(case["n"] > 0 and case["eps"] > 0 and (case["pk"] or case["ent"]), "accepted %s", case)
    info.mark()


@st.composite
def pmf(draw, k=None):
    k = k or draw(st.integers(1, 6))
    w = draw(st.lists(st.one_of(st.integers(0, 20), st.sampled_from([0, 0, 1])), min_size=k, max_size=k))
    if not sum(w):
        w[draw(st.integers(0, k - 1))] = 1
    return w


@st.composite
def pmfs(draw):
    k = draw(st.integers(1, 6))
    rows = draw(st.integers(1, 4))
    return {"p": [draw(pmf(k)) for _ in range(rows)], "q": [draw(pmf(k)) for _ in range(rows)],
            "same": draw(st.sampled_from([False, False, True])), "base": draw(st.sampled_from([2, 2, 3, 10])),
            "flat": draw(st.booleans())}


def normal(w):
    return [x / sum(w) for x in w]


def run_pmf(case, info):
    p = [normal(w) for w in case["p"]]
    q = p if case["same"] else [normal(w) for w in case["q"]]
    flat = case["flat"]
    a = np.array(p[0] if flat else p)
    b = np.array(q[0] if flat else q)
    keep = a.copy(), b.copy()
    h = entropy(a, base=case["base"])
    check(isinstance(h, np.ndarray), "entropy is a %s", type(h).__name__)
    want = [-sum(x * math.log(x, case["base"]) for x in r if x > 0) for r in (p[:1] if flat else p)]
    check(np.shape(h) == (() if flat else (len(p),)), "shape %s", np.shape(h))
    check(np.allclose(np.atleast_1d(h), want, rtol=0, atol=TOL), "entropy %s, expected %s", h, want)
    if case["base"] == 2:
        check(np.allclose(entropy(a), h, rtol=0, atol=TOL), "entropy isn't in bits by default")
    d = np.atleast_1d(hellinger(a, b))
    check(np.shape(hellinger(a, b)) == (() if flat else (len(p),)), "shape of the distance %s", np.shape(hellinger(a, b)))
    want2 = [max(0.0, 1 - sum(math.sqrt(x * y) for x, y in zip(r, s))) for r, s in (list(zip(p, q))[:1] if flat else zip(p, q))]
    check(np.all(np.isfinite(d)) and np.allclose(d ** 2, want2, rtol=0, atol=1e-12), "distance %s, squares expected %s", d, want2)
    check(np.all(d >= 0) and np.all(d <= 1 + 1e-12), "distance %s", d)
    check(np.allclose(np.atleast_1d(hellinger(b, a)) ** 2, d ** 2, rtol=0, atol=1e-12), "distance isn't symmetric")
    check(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "the distributions were modified")
    info.label("1D" if flat else "2D", "equal" if case["same"] else "different")
    info.mark(len(p[0]) > 1)


def run_typical(case, info):
    n, eps = case["n"], case["eps"]
    p = normal(case["p"])
    h = -sum(x * math.log2(x) for x in p if x > 0)
    lo, hi = typical_set_cardinality(n, pk=np.array(p), eps=eps)
    want = (1 - eps) * 2 ** (n * (h - eps)), 2 ** (n * (h + eps))
    check(math.isclose(lo, want[0], rel_tol=1e-7) and math.isclose(hi, want[1], rel_tol=1e-7), "bounds %s, expected %s",
          (lo, hi), want)
    ent = case["ent"]
    lo, hi = typical_set_cardinality(n, ent=ent, eps=eps)
    want = (1 - eps) * 2 ** (n * (ent - eps)), 2 ** (n * (ent + eps))
    check(math.isclose(lo, want[0], rel_tol=1e-7) and math.isclose(hi, want[1], rel_tol=1e-7), "bounds %s, expected %s",
          (lo, hi), want)
    both = typical_set_cardinality(n, pk=np.array(p), ent=ent, eps=eps)
    check(math.isclose(both[0], lo, rel_tol=1e-9) and math.isclose(both[1], hi, rel_tol=1e-9), "a given entropy isn't used")
    default = typical_set_cardinality(n, ent=ent)
    check(math.isclose(default[1], 2 ** (n * (ent + 1e-5)), rel_tol=1e-7), "default epsilon")
    info.mark()


def subs():
    return [
        Sub("prob", data_arrays, run_prob, "1D and 2D data of integer, boolean and text type; non-trivial with at least two "
            "symbols", 3000),
        Sub("pmf", pmfs, run_pmf, "pairs of distributions, scalar and per row; non-trivial with at least two outcomes", 3000),
        Sub("large", lambda: st.fixed_dictionaries({
            "dtype": st.sampled_from(["uint8", "int8", "int64", "uint16"]), "rows": st.sampled_from([0, 1, 10, 40, 300]),
            "cols": st.sampled_from([50, 255, 256, 257, 300, 1000]), "alphabet": st.sampled_from([2, 17, 200]), "seed": st.integers(0, 2 ** 16),
            "skew": st.sampled_from([0, 0, 0.001, 0.02])}),
            run_large, "as prob and pmf, up to 300 rows, 1000 columns and 200 symbols, evenly spread and almost constant", 120, 1200),
        Sub("typical", lambda: st.fixed_dictionaries({
            "n": st.integers(1, 100), "p": pmf(), "ent": st.one_of(st.floats(0, 4), st.just(0.0)),
            "eps": st.one_of(st.floats(1e-6, 0.5), st.floats(1e-6, 3), st.just(1.0))}), run_typical, "sequence lengths, distributions, entropies and epsilons", 1000),
        Sub("refuse", lambda: st.one_of(
            st.fixed_dictionaries({"kind": st.just("float"), "dtype": st.sampled_from(["float16", "float32", "float64", "longdouble"]),
                                   "shape": st.sampled_from([[3], [2, 2], [1, 1, 1]])}),
            st.fixed_dictionaries({"kind": st.just("dims"), "n": st.sampled_from([0, 3, 4])}),
            st.fixed_dictionaries({"kind": st.just("hellinger"), "n": st.integers(0, 3), "m": st.integers(0, 3)}),
            st.fixed_dictionaries({"kind": st.just("typical"), "n": st.integers(-2, 3), "pk": st.booleans(), "ent": st.booleans(),
                                   "eps": st.sampled_from([-1e-3, 0.0, 1e-5, 0.1])})), run_refuse,
            "unsupported types, dimensions and arguments", 400, 1000),
    ]
