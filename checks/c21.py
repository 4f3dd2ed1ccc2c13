"""C21: Markov sources follow their transition matrix"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check
from utils.random_sources import generate_markov_samples

ASSUMPTIONS = ["frequencies are judged by a test with a false alarm probability below 1e-12"]


def matrix(case):
    s, order = case["states"], case["order"]
    rows = np.array(case["rows"], dtype=float)
    rows = rows / rows.sum(axis=1, keepdims=True)
    return rows.reshape((s,) * (order + 1))


@st.composite
def chains(draw, deterministic):
    s = draw(st.integers(2, 4))
    order = draw(st.integers(1, 3))
    rows = []
    if s ** order > 16:
        det = draw(st.lists(st.integers(0, s - 1), min_size=s ** order, max_size=s ** order))
    for i in range(s ** order):
        if deterministic:
            hot = det[i] if s ** order > 16 else draw(st.integers(0, s - 1))
            rows.append([int(j == hot) for j in range(s)])
        else:
            if s ** order > 16:
                w = [int((det[i] + j) % s < 2) for j in range(s)]
            else:
                w = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=s, max_size=s))
            if not sum(w):
                w[draw(st.integers(0, s - 1))] = 1
            rows.append(w)
    init = draw(st.lists(st.integers(0, s - 1), min_size=order, max_size=order))
    return {"states": s, "order": order, "rows": rows, "init": init, "n": draw(st.integers(order, 60)),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "scalar": order == 1 and draw(st.booleans())}


def sample(case, n):
    t = matrix(case)
    keep = t.copy()
    np.random.seed(case["seed"])
    out = generate_markov_samples(t, case["init"][0] if case["scalar"] else list(case["init"]), n)
    check(np.array_equal(t, keep), "the matrix was modified")
    out = np.asarray(out)
    check(out.shape == (n,), "shape %s, expected %d samples", out.shape, n)
    check(out[:case["order"]].tolist() == case["init"], "starts with %s, expected %s", out[:case["order"]].tolist(), case["init"])
    return t, out.tolist()


def run_deterministic(case, info):
    t, out = sample(case, case["n"])
    want = list(case["init"])
    while len(want) < case["n"]:
        want.append(int(np.argmax(t[tuple(want[len(want) - case["order"]:])])))
    check(out == want, "samples %s, expected %s", out, want)
    info.label("order:%d" % case["order"])
    info.mark(case["n"] > case["order"])


def run_support(case, info):
    t, out = sample(case, case["n"])
    for i in range(case["order"], case["n"]):
        p = t[tuple(out[i - case["order"]:i])]
        check(0 <= out[i] < case["states"] and p[out[i]] > 0, "sample %d: %s after %s has probability zero", i, out[i],
              out[i - case["order"]:i])
    info.label("order:%d" % case["order"])
    info.mark(case["n"] > case["order"] and (t == 0).any())


def run_frequency(case, info):
    t, out = sample(case, 1500)
    counts = {}
    for i in range(case["order"], len(out)):
        counts.setdefault(tuple(out[i - case["order"]:i]), np.zeros(case["states"]))[out[i]] += 1
    for key, c in counts.items():
        n = c.sum()
        # Hoeffding: P(|freq - p| > e) <= 2 exp(-2 n e^2) = 1e-13
        e = np.sqrt(np.log(2e13) / (2 * n))
        check(np.all(np.abs(c / n - t[key]) <= e), "after %s: frequencies %s of %d samples, probabilities %s", key, c / n, n, t[key])
    info.label("order:%d" % case["order"])
    info.mark(len(counts) > 1)


@st.composite
def large(draw):
    s, order = draw(st.sampled_from([(2, 4), (2, 6), (3, 3), (5, 2), (12, 1), (40, 1), (10, 2), (140, 1), (300, 1)]))
    return {"states": s, "order": order, "mix": draw(st.integers(0, 2 ** 16)), "n": draw(st.integers(100, 1500)),
            "deterministic": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31 - 1)), "scalar": order == 1 and draw(st.booleans())}


def run_large(case, info):
    rs = np.random.RandomState(case["mix"])
    s, order = case["states"], case["order"]
    rows = np.zeros((s ** order, s), dtype=int)
    if case["deterministic"]:
        rows[np.arange(s ** order), rs.randint(0, s, s ** order)] = 1
    else:
        rows = rs.randint(0, 6, rows.shape) * (rs.random_sample(rows.shape) < 0.5)
        rows[np.arange(s ** order), rs.randint(0, s, s ** order)] += 1
    full = dict(case, rows=rows.tolist(), init=rs.randint(0, s, order).tolist())
    (run_deterministic if case["deterministic"] else run_support)(full, info)


def run_refuse(case, info):
    s, order = 2, case["order"]
    t = np.full((s,) * (order + 1), 0.5)
    try:
        generate_markov_samples(t, [0] * case["given"], 5)
    except ValueError:
        check(order != case["given"], "a matching initial state was refused")
        info.mark()
    else:
        check(order == case["given"], "an initial state of length %d for order %d was accepted", case["given"], order)
    if order > 1:
        try:
            generate_markov_samples(t, 0, 5)
        except Exception:
            pass
        else:
            check(False, "a single initial state for order %d was accepted", order)
    for axis in range(order + 1):
        shape = [s] * (order + 1)
        shape[axis] += case["more"]
        try:
            generate_markov_samples(np.full(shape, 1 / shape[-1]), [0] * order, 5)
        except ValueError:
            continue
        check(False, "an inconsistent matrix of shape %s was accepted", shape)


def run_fresh(case, info):
    """a second sequence is drawn anew: that it equals the first one by chance has probability p"""
    t, first = sample(case, case["n"])
    second = np.asarray(generate_markov_samples(t, case["init"][0] if case["scalar"] else list(case["init"]), case["n"])).tolist()
    order = case["order"]
    p = np.prod([t[tuple(first[i - order:i])][first[i]] for i in range(order, case["n"])])
    if p < 1e-15:
        check(first != second, "two sequences of %d samples are the same", case["n"])
        info.mark()


def subs():
    return [
        Sub("deterministic", lambda: chains(True), run_deterministic, "chains of order 1-3 with one successor per context: the whole "
            "sequence is known; non-trivial beyond the initial state", 1500),
        Sub("support", lambda: chains(False), run_support, "sparse chains: no impossible transition; non-trivial when there is one", 1000),
        Sub("large", large, run_large, "as deterministic and support, up to 300 states, order up to 6 and 1500 samples", 200, 2000),
        Sub("frequency", lambda: chains(False), run_frequency, "1500 samples against the matrix; non-trivial with several contexts", 200),
        Sub("fresh", lambda: chains(False), run_fresh, "two sequences of a chain one after the other; non-trivial when they are sure to "
            "differ", 300, 3000),
        Sub("refuse", lambda: st.fixed_dictionaries({"order": st.integers(1, 3), "given": st.integers(1, 4), "more": st.sampled_from([1, 2, -1])}), run_refuse,
            "mismatching initial states and matrices", 60, 60),
    ]
