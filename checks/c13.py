"""C13: DUDE denoisers"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check
from inference import DUDE, OnlineDude

ASSUMPTIONS = ["contexts have at least one symbol (k >= 1)",
               "channel matrices are invertible and well conditioned; soft decisions are defined for a binary alphabet",
               "estimates whose costs tie up to 1e-9 may be either"]


@st.composite
def channels(draw, size):
    if size == 2 and draw(st.booleans()):
        f = draw(st.sampled_from([0.0, 0.01, 0.1, 0.2, 0.35, 0.45]))
        return [[1 - f, f], [f, 1 - f]]
    rows = []
    for i in range(size):
        w = draw(st.lists(st.integers(0, 3), min_size=size, max_size=size))
        w[i] += 4 * size
        rows.append([x / sum(w) for x in w])
    return rows


@st.composite
def losses(draw, size):
    if draw(st.booleans()):
        return [[float(i != j) for j in range(size)] for i in range(size)]
    return [[0.0 if i == j else float(draw(st.integers(1, 5))) for j in range(size)] for i in range(size)]


@st.composite
def operations(draw, n, size, k):
    """how the observations are fed: one by one or in bulk, with resets, given contexts and refused arguments in between"""
    symbol = st.integers(0, size - 1)
    feed = st.tuples(st.sampled_from(["each", "bulk"]), st.integers(0, n)).map(list)
    other = st.one_of(st.just(["reset"]), st.tuples(st.just("context"), st.lists(symbol, min_size=k, max_size=k)).map(list),
                      st.tuples(st.just("bad"), st.sampled_from([-1, size])).map(list),
                      st.tuples(st.just("badcontext"), st.sampled_from([-1, 1])).map(list))
    ops = draw(st.lists(st.one_of(feed, feed, other), max_size=6))
    if draw(st.booleans()):
        ops.insert(0, ["context", draw(st.lists(symbol, min_size=k, max_size=k))])
    return ops + [["bad", size], ["badcontext", 1], ["bulk", n]]


@st.composite
def cases(draw, online):
    hard = draw(st.booleans())
    size = draw(st.sampled_from([2, 2, 3, 4])) if hard else 2
    k = draw(st.integers(1, 3))
    period = draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=5))
    n = draw(st.integers(1, 40))
    obs = [period[i % len(period)] for i in range(n)]
    for i in draw(st.lists(st.integers(0, n - 1), max_size=8)):
        obs[i] = draw(st.integers(0, size - 1))
    case = {"hard": hard, "size": size, "k": k, "obs": obs, "pi": draw(channels(size)), "loss": draw(losses(size)),
            "dtype": draw(st.sampled_from(["int64", "int64", "uint8", "int8", "int32"]))}
    if online:
        case["ops"] = draw(operations(n, size, k))
    return case


@st.composite
def long_cases(draw, online):
    hard = draw(st.booleans())
    size = draw(st.sampled_from([2, 2, 3, 5])) if hard else 2
    k = draw(st.integers(1, 5))
    case = {"hard": hard, "size": size, "k": k, "n": draw(st.integers(100, 1200)), "mix": draw(st.integers(0, 2 ** 16)),
            "period": draw(st.integers(1, 12)), "noise": draw(st.sampled_from([0.02, 0.1, 0.3])), "pi": draw(channels(size)),
            "loss": draw(losses(size))}
    if online:
        case["ops"] = draw(operations(case["n"], size, k))
    return case


def unroll(case):
    rs = np.random.RandomState(case["mix"])
    period = rs.randint(0, case["size"], case["period"])
    obs = period[np.arange(case["n"]) % len(period)]
    noise = rs.randint(0, case["size"], case["n"])
    return dict(case, obs=np.where(rs.random_sample(case["n"]) < case["noise"], noise, obs).tolist())


def decide(counts, obs, case, pi, inv, loss):
    """(set of acceptable estimates or the posterior, cost)"""
    raw = counts @ inv
    if case["hard"]:
        cost = (raw * pi[:, obs]) @ loss
        lo = cost.min()
        return {i for i in range(len(cost)) if cost[i] <= lo + 1e-9 * (1 + np.abs(cost).max())}, lo
    post = np.maximum(raw, 1.0) * pi[:, obs]
    post = post / post.sum()
    return post, float(post @ loss @ post)


def same_est(got, want, case):
    if case["hard"]:
        return int(got) in want
    return np.allclose(np.asarray(got, dtype=float).ravel(), want, rtol=0, atol=1e-9)


def context_key(obs, i, k):
    return tuple(obs[i - k:i]), tuple(obs[i + 1:i + k + 1])


def run_batch(case, info):
    pi, loss = np.array(case["pi"]), np.array(case["loss"])
    inv = np.linalg.inv(pi)
    d = DUDE(pi.copy(), loss.copy(), case["k"], hard_decision=case["hard"], alphabet_size=case["size"])
    obs = np.array(case["obs"], dtype=np.int_)
    keep = obs.copy()
    for order in (1, -1, 1):  # no sequence leaves anything behind
        case = dict(case, obs=case["obs"][::-1]) if order == -1 else dict(case, obs=keep.tolist())
        obs = np.array(case["obs"], dtype=case.get("dtype", "int64"))
        copy = obs.copy()
        est, cost = d.denoise_sequence(obs)
        check(np.array_equal(obs, copy), "the observations were modified")
        n, k = len(obs), case["k"]
        counts = {}
        for i in range(k, n - k):
            c = counts.setdefault(context_key(case["obs"], i, k), np.zeros(case["size"]))
            c[case["obs"][i]] += 1
        total = 0.0
        check(len(est) == n, "%d estimates of %d observations", len(est), n)
        for i in range(n):
            if k <= i < n - k:
                want, c = decide(counts[context_key(case["obs"], i, k)], case["obs"][i], case, pi, inv, loss)
                total += c
            else:
                want = {case["obs"][i]} if case["hard"] else np.eye(case["size"])[case["obs"][i]]
            check(same_est(est[i], want, case), "estimate %d is %s, expected %s", i, est[i], want)
        check(abs(float(cost) - total / n) < 1e-6 * (1 + abs(total)), "cost %s, expected %s", cost, total / n)
    changed = case["hard"] and any(int(e) != o for e, o in zip(est, case["obs"]))
    info.label("hard" if case["hard"] else "soft", "denoised" if changed else "unchanged")
    info.mark(len(case["obs"]) > 2 * case["k"])


class Ref:
    def __init__(self, case):
        self.case = case
        self.pi, self.loss = np.array(case["pi"]), np.array(case["loss"])
        self.inv = np.linalg.inv(self.pi)
        self.past = []
        self.counts = {}

    def step(self, o):
        k = self.case["k"]
        if len(self.past) < k:
            self.past.append(o)
            return ({o} if self.case["hard"] else np.eye(self.case["size"])[o]), 0.0
        key = tuple(self.past[len(self.past) - k:])
        c = self.counts.setdefault(key, np.zeros(self.case["size"]))
        c[o] += 1
        self.past.append(o)
        return decide(c, o, self.case, self.pi, self.inv, self.loss)


def run_online(case, info):
    pi, loss = np.array(case["pi"]), np.array(case["loss"])
    d = OnlineDude(pi.copy(), loss.copy(), case["k"], hard_decision=case["hard"], alphabet_size=case["size"])
    ref = Ref(case)
    obs, pos = case["obs"], 0
    for op in case["ops"]:
        if op[0] == "reset":
            d.reset()
            ref = Ref(case)
        elif op[0] == "context":
            d.initial_context(tuple(op[1]))
            ref.past = list(op[1])
            info.label("context", *(["context later"] if pos else []))
        elif op[0] == "bad":
            try:
                d.denoise_sample(op[1])
            except ValueError:
                continue
            check(False, "observation %d was accepted", op[1])
        elif op[0] == "badcontext":
            try:
                d.initial_context(tuple([0] * (case["k"] + op[1])))
            except ValueError:
                continue
            check(False, "a context of the wrong length was accepted")
        elif op[0] == "each":
            for i, o in enumerate(obs[pos:pos + op[1]]):
                est, cost = d.denoise_sample(o)
                want, c = ref.step(o)
                check(same_est(est, want, case), "estimate %d is %s, expected %s", pos + i, est, want)
                check(abs(float(cost) - c) < 1e-6 * (1 + abs(c)), "cost %d is %s, expected %s", pos + i, cost, c)
            pos = min(len(obs), pos + op[1])
        else:
            part = obs[pos:pos + op[1]]
            if not part:
                continue
            arr = np.array(part, dtype=case.get("dtype", "int64"))
            keep = arr.copy()
            est, costs = d.denoise_sequence(arr)
            check(np.array_equal(arr, keep), "the observations were modified")
            check(len(est) == len(costs) == len(part), "%d estimates of %d observations", len(est), len(part))
            for i, o in enumerate(part):
                want, c = ref.step(o)
                check(same_est(est[i], want, case), "estimate %d of the sequence is %s, expected %s", i, est[i], want)
                check(abs(float(costs[i]) - c) < 1e-6 * (1 + abs(c)), "cost %d of the sequence is %s, expected %s", i, costs[i], c)
            pos += len(part)
    info.label("hard" if case["hard"] else "soft", *(["reset"] if ["reset"] in case["ops"] else []))
    info.mark(len(obs) > case["k"] + 1)


def subs():
    return [
        Sub("batch", lambda: cases(False), run_batch, "noisy periodic sequences, alphabets of 2-4, general channels and losses; "
            "non-trivial when some observation has a two-sided context", 2000),
        Sub("online", lambda: cases(True), run_online, "sequences fed by sample and in bulk, with given contexts, resets and refused arguments in between; "
            "non-trivial when longer than the context", 2000),
        Sub("long-batch", lambda: long_cases(False), lambda c, i: run_batch(unroll(c), i), "as batch, 100 to 1200 observations, contexts "
            "up to 5", 80, 1600),
        Sub("long-online", lambda: long_cases(True), lambda c, i: run_online(unroll(c), i), "as online, 100 to 1200 observations, "
            "contexts up to 5", 80, 1600),
    ]
