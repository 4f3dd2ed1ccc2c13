"""C12: the Bernoulli mixture model is fitted by expectation maximisation and predicts by responsibility"""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp
from vlib.core import Sub, check
from inference import BMM

ASSUMPTIONS = ["initialisation is random: the properties hold for any starting point"]


def log_joint(x, mu, pi):
    with np.errstate(all="ignore"):
        a = np.log(np.maximum(mu, 1e-200))
        b = np.log(np.maximum(1 - mu, 1e-200))
        return x @ a.T + (1 - x) @ b.T + np.log(pi)[None, :]


@st.composite
def datasets(draw):
    d = draw(st.integers(1, 8))
    protos = draw(st.lists(st.lists(st.integers(0, 1), min_size=d, max_size=d), min_size=1, max_size=3))
    rows = []
    for _ in range(draw(st.integers(1, 24))):
        r = list(draw(st.sampled_from(protos)))
        for i in draw(st.lists(st.integers(0, d - 1), max_size=2)):
            r[i] ^= 1
        rows.append(r)
    return {"x": rows, "k": draw(st.sampled_from([2, 3, 4, 1])), "iters": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 2 ** 31 - 1))}


@contextlib.contextmanager
def seeded(seed):
    """the starting point is drawn from a fresh generator: give it a seed, so that a case replays"""
    state, legacy, modern = np.random.get_state(), np.random.RandomState, np.random.default_rng
    np.random.seed(seed)
    np.random.RandomState = lambda s=None: legacy(seed if s is None else s)
    np.random.default_rng = lambda s=None: modern(seed if s is None else s)
    try:
        yield
    finally:
        np.random.RandomState, np.random.default_rng = legacy, modern
        np.random.set_state(state)


def fitted(case, x, iters, m=None):
    if m is None:
        m = BMM(case["k"], iters)
    m.max_iter = iters
    with contextlib.redirect_stdout(io.StringIO()), seeded(case["seed"]):
        m.fit(x)
    return m


def step(x, mu, pi):
    """one step of expectation maximisation; a step which empties a component is not taken"""
    lj = log_joint(x, mu, pi)
    gamma = np.exp(lj - logsumexp(lj, axis=1)[:, None])
    neff = gamma.sum(axis=0)
    if np.any(neff == 0):
        return gamma, mu, pi
    return gamma, (gamma.T @ x) / neff[:, None], neff / len(x)


def other_samples(m, y, ly):
    check(np.allclose(m.score_samples(y), logsumexp(ly, axis=1), rtol=1e-6, atol=1e-6), "log likelihoods of other samples")
    check(np.isclose(m.score(y), logsumexp(ly, axis=1).mean(), rtol=1e-6, atol=1e-6), "score of other samples")
    pred = np.asarray(m.predict(y))
    check(pred.shape == (len(y),) and all(ly[i, int(c)] >= ly[i].max() - 1e-6 * (1 + abs(ly[i].max())) for i, c in enumerate(pred)),
          "other samples are put in components %s: %s", pred, ly)


def run(case, info):
    x = np.array(case["x"], dtype=np.int_)
    keep = x.copy()
    m = fitted(case, x, case["iters"])
    check(np.array_equal(x, keep), "the data were modified")
    mu, pi, gamma = np.asarray(m.mu, dtype=float), np.asarray(m.pi, dtype=float), np.asarray(m.gamma, dtype=float)
    n, d = x.shape
    check(mu.shape == (case["k"], d) and pi.shape == (case["k"],) and gamma.shape == (n, case["k"]), "shapes %s %s %s", mu.shape,
          pi.shape, gamma.shape)
    check(np.all(np.isfinite(mu)) and np.all(mu >= -1e-9) and np.all(mu <= 1 + 1e-9), "means %s", mu)
    check(np.all(pi >= 0) and abs(pi.sum() - 1) < 1e-6, "weights %s", pi)
    check(np.all(gamma >= 0) and np.allclose(gamma.sum(axis=1), 1, atol=1e-6), "responsibilities don't sum to one")
    neff = gamma.sum(axis=0)
    lj = log_joint(x, mu, pi)
    if np.all(neff > 1e-9):
        check(np.allclose(pi, neff / n, atol=1e-6), "weights %s, responsibilities say %s", pi, neff / n)
        want = (gamma.T @ x) / neff[:, None]
        check(np.allclose(mu, want, atol=1e-6), "means %s, responsibilities say %s", mu, want)
        info.label("maximised")
    else:
        info.label("empty component")
    ll = logsumexp(lj, axis=1)
    got = np.asarray(m.score_samples(x), dtype=float)
    check(np.allclose(got, ll, rtol=1e-6, atol=1e-6), "log likelihoods %s, expected %s", got, ll)
    check(np.isclose(m.logL, ll.mean(), rtol=1e-6, atol=1e-6), "log likelihood %s, expected %s", m.logL, ll.mean())
    check(np.isclose(m.score(x), ll.mean(), rtol=1e-6, atol=1e-6), "score %s, expected %s", m.score(x), ll.mean())
    check(m.logL >= m.old_logL - 1e-6 * (1 + abs(m.logL)), "the last iteration lowered the likelihood from %s to %s",
          m.old_logL, m.logL)
    pred = np.asarray(m.predict(x))
    check(pred.shape == (n,), "shape of the prediction %s", pred.shape)
    for i in range(n):
        check(lj[i, int(pred[i])] >= lj[i].max() - 1e-6 * (1 + abs(lj[i].max())), "sample %d is put in component %d: %s", i,
              pred[i], lj[i])
    again = fitted(case, x, case["iters"])
    if np.array_equal(again.mu, m.mu) and np.array_equal(again.pi, m.pi):  # the starting point is the same
        after = fitted(case, x, case["iters"] + 1)
        g, mu1, pi1 = step(x, mu, pi)
        neff = g.sum(axis=0)
        if not np.any((neff > 0) & (neff < 1e-200)):  # at the edge of underflow either may happen
            check(np.allclose(after.gamma, g, atol=1e-5), "the next step's responsibilities are %s, expected %s", after.gamma, g)
            check(np.allclose(after.pi, pi1, atol=1e-5), "the next step's weights are %s, expected %s", after.pi, pi1)
            check(np.allclose(after.mu, mu1, atol=1e-5), "the next step's means are %s, expected %s", after.mu, mu1)
            info.label("next step")
    # samples it was not fitted to
    y = np.concatenate((1 - x[:3], x[-2:], np.roll(x[:8], 1, axis=1)))
    # where a component excludes a sample, the floor under its probability decides
    chance = [np.where(r == 1, mu, 1 - mu) for r in y]
    y = y[[bool(np.all(c > 1e-180) and np.all(c.max(axis=0) > 1e-12)) for c in chance]]
    ly = log_joint(y, mu, pi)
    if len(y):
        info.label("other samples")
        other_samples(m, y, ly)
    check(np.array_equal(m.mu, mu) and np.array_equal(m.pi, pi), "asking changed the model")
    # fitted again to other data, it is a model of those
    half = x[:max(1, n // 2)]
    m2 = fitted(case, half, case["iters"], fitted(case, x, 1))
    fresh = fitted(case, half, case["iters"])
    if np.array_equal(again.mu, m.mu):
        check(np.allclose(m2.mu, fresh.mu, atol=1e-9) and np.allclose(m2.pi, fresh.pi, atol=1e-9) and
              np.allclose(m2.gamma, fresh.gamma, atol=1e-9), "fitting a second data set depends on the first")
    if case["k"] == 1:
        check(np.allclose(mu[0], x.mean(axis=0), atol=1e-6), "one component must be the mean")
    info.label("components:%d" % case["k"])
    info.mark(case["k"] > 1 and len(np.unique(x, axis=0)) > 1)


@st.composite
def wide(draw):
    """buffers as long as those of the telemetry link: a component can then lose every sample, and its step is undone"""
    return {"d": draw(st.sampled_from([1500, 4000, 4000, 9000])), "protos": draw(st.integers(1, 3)), "n": draw(st.integers(2, 10)),
            "noise": draw(st.sampled_from([0, 0.02, 0.1])), "k": draw(st.integers(2, 6)), "iters": draw(st.sampled_from([1, 3, 6])),
            "seed": draw(st.integers(0, 2 ** 31 - 1))}


def run_wide(case, info):
    rs = np.random.RandomState(case["seed"])
    protos = rs.randint(0, 2, (case["protos"], case["d"]))
    x = protos[rs.randint(0, case["protos"], case["n"])] ^ (rs.random_sample((case["n"], case["d"])) < case["noise"])
    run({"x": x.tolist(), "k": case["k"], "iters": case["iters"], "seed": case["seed"]}, info)
    info.nontrivial = "empty component" in info.labels


@st.composite
def many(draw):
    return {"d": draw(st.sampled_from([4, 16, 64])), "protos": draw(st.integers(2, 8)), "n": draw(st.integers(25, 200)),
            "noise": draw(st.sampled_from([0.02, 0.1, 0.3])), "k": draw(st.integers(2, 8)), "iters": draw(st.sampled_from([1, 5, 30, 120])),
            "seed": draw(st.integers(0, 2 ** 31 - 1))}


def run_many(case, info):
    rs = np.random.RandomState(case["seed"])
    protos = rs.randint(0, 2, (case["protos"], case["d"]))
    x = protos[rs.randint(0, case["protos"], case["n"])] ^ (rs.random_sample((case["n"], case["d"])) < case["noise"])
    run({"x": x.tolist(), "k": case["k"], "iters": case["iters"], "seed": case["seed"]}, info)


def subs():
    return [Sub("many", many, run_many, "up to 200 samples of up to 64 bits and 8 components; same rule as fit", 160, 1600),
            Sub("fit", datasets, run, "binary data sets from noisy prototypes, fitted with 1-4 components; non-trivial with several "
                "components and distinct samples", 1600, 16000),
            Sub("wide", wide, run_wide, "data sets of a few samples of thousands of bits; non-trivial when a component lost every "
                "sample", 800, 8000)]
