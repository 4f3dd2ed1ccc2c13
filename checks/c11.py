"""C11: the buffer classifier merges its training buffers agglomeratively and labels every later buffer with the closest cluster"""
import math
import numpy as np
import bitstring
from hypothesis import strategies as st
from vlib.core import Sub, check
from inference import BufferClassifier, Cluster

EPS = np.finfo(float).eps
TIE = 1e-9
ASSUMPTIONS = ["training takes at least one buffer (min_data_size >= 2) and at least one cluster is kept (k >= 1)",
               "choices which tie up to 1e-9 may be resolved either way"]


def pair_distance(a, b, merge, weight):
    (ca, na), (cb, nb) = a, b
    p, q = np.array(ca) / na, np.array(cb) / nb
    mx = (na + nb) / 2
    w = {"linear": mx, "sqrt": math.sqrt(mx)}.get(weight, 1.0)
    if merge == "KlDiv":
        tot = 0.0
        for i in range(p.shape[0]):
            d = 0.0
            for x, y in list(zip(p[i], q[i])) + list(zip(q[i], p[i])):
                if x > 0:
                    d += math.inf if y == 0 else x * math.log2(x / y)
            tot += min(max(d, 0.0), 10.0)
        return w * tot / p.shape[0]
    h = [math.sqrt(max(0.0, 1 - math.sqrt(p[i][0] * q[i][0]) - math.sqrt(p[i][1] * q[i][1]))) for i in range(p.shape[0])]
    # equal distributions: rounding may leave up to 1e-8 there
    h = [0.0 if abs(p[i][0] - q[i][0]) < 1e-12 else x for i, x in enumerate(h)]
    return w * sum(h) / len(h)


def merged(a, b):
    return tuple(tuple(x + y for x, y in zip(r, s)) for r, s in zip(a[0], b[0])), a[1] + b[1]


def reachable(clusters, k, merge, weight, limit=20000):
    """every set of clusters agglomeration may end with, over all ways to break ties (None: too many)"""
    seen = set()
    done = set()
    cache = {}
    todo = [tuple(sorted(clusters))]
    while todo:
        state = todo.pop()
        if state in seen:
            continue
        seen.add(state)
        if len(seen) > limit:
            return None
        if len(state) <= k:
            done.add(state)
            continue
        best = []
        for i in range(len(state)):
            for j in range(i + 1, len(state)):
                key = (state[i], state[j])
                if key not in cache:
                    cache[key] = pair_distance(state[i], state[j], merge, weight)
                best.append((cache[key], i, j))
        low = min(b[0] for b in best)
        for d, i, j in best:
            if d <= low + 1e-7:
                rest = [c for n, c in enumerate(state) if n not in (i, j)]
                todo.append(tuple(sorted(rest + [merged(state[i], state[j])])))
    return done


def counts_of(bits):
    return tuple((1 - b, b) for b in bits)


def observed(c):
    n = len(c)
    cnt = np.asarray(c.dist, dtype=float) * n
    check(np.allclose(cnt, np.round(cnt), atol=1e-6), "cluster %s has fractional counts", c.uid)
    return tuple(tuple(int(round(x)) for x in row) for row in cnt), n


def metric(counts, n, bits, how):
    if how == "hamming":
        return sum((1 if c[1] > c[0] else 0) != b for c, b in zip(counts, bits))
    tot = 0.0
    for (c0, c1), b in zip(counts, bits):
        tot += min(max(math.log((c1 if b else c0) / n + EPS), -100.0), 0.0)
    return -tot / len(bits)


@st.composite
def histories(draw):
    bits = draw(st.integers(1, 10))
    protos = draw(st.lists(st.lists(st.integers(0, 1), min_size=bits, max_size=bits), min_size=1, max_size=3))
    train = draw(st.integers(2, 8))
    n = train + draw(st.integers(0, 8))
    bufs = []
    for _ in range(n):
        b = list(draw(st.sampled_from(protos)))
        for i in draw(st.lists(st.integers(0, bits - 1), max_size=2)):
            b[i] ^= 1
        bufs.append(b)
    return {"train": train, "k": draw(st.integers(1, 4)), "classify": draw(st.sampled_from(["LL", "LL", "hamming"])),
            "merge": draw(st.sampled_from(["Hellinger", "Hellinger", "KlDiv"])),
            "weight": draw(st.sampled_from(["linear", "linear", "sqrt", "none"])), "bufs": bufs,
            "form": draw(st.sampled_from(["array", "array", "Bits"])), "defaults": draw(st.booleans())}


def run_history(case, info, limit=20000):
    if case["defaults"]:
        case = dict(case, classify="LL", merge="Hellinger", weight="linear")
        clf = BufferClassifier(case["train"], case["k"])
    else:
        clf = BufferClassifier(case["train"], case["k"], classify_dist=case["classify"], merge_dist=case["merge"],
                               weight_scheme=case["weight"])
    train, model = [], None
    for t, bits in enumerate(case["bufs"]):
        arr = np.array(bits, dtype=np.int_)
        buf = bitstring.Bits(bits) if case["form"] == "Bits" else arr
        keep = arr.copy()
        label = clf.classify(buf)
        check(np.array_equal(arr, keep), "the buffer was modified")
        if t + 1 < case["train"]:
            check(label == -1, "buffer %d of the training phase got label %s", t, label)
            train.append((counts_of(bits), 1))
            continue
        live = {int(c.uid): observed(c) for c in clf.clusters}
        check(len(live) == len(clf.clusters) == min(case["k"], len(train)), "%d clusters from %d buffers with k=%d",
              len(clf.clusters), len(train), case["k"])
        check(sorted(live) == list(range(len(live))), "cluster labels %s", sorted(live))
        check(label in live, "label %s isn't a cluster", label)
        add = counts_of(bits)
        before = dict(live)
        c, n = live[label]
        before[label] = (tuple((x - a, y - b) for (x, y), (a, b) in zip(c, add)), n - 1)
        if model is None:  # the first buffer after training: clusters were merged just before it was classified
            options = reachable(train, case["k"], case["merge"], case["weight"], limit)
            if options is None:
                info.label("too many ties")
            else:
                check(tuple(sorted(before.values())) in options, "clusters %s aren't the result of merging the closest pairs",
                      sorted(before.values()))
                info.label("tie" if len(options) > 1 else "unique clustering")
        else:
            check(before == model, "clusters %s, expected %s: the buffer must be added to cluster %s only", before, model, label)
        score = {u: metric(cc, nn, bits, case["classify"]) for u, (cc, nn) in before.items()}
        check(score[label] <= min(score.values()) + TIE, "label %s has distance %s, the closest cluster is at %s", label,
              score[label], score)
        for cl in clf.clusters:
            cc, nn = live[int(cl.uid)]
            check([int(x) for x in cl.hard_bits] == [1 if b > a else 0 for a, b in cc], "hard bits %s of counts %s",
                  list(cl.hard_bits), cc)
            check(all(a + b == nn for a, b in cc), "counts %s of %d samples", cc, nn)
        model = live
        info.mark(len(live) > 1)
        info.label("clusters:%d" % len(live))
    info.label(case["classify"], case["merge"])


@st.composite
def long_histories(draw):
    return {"bits": draw(st.sampled_from([8, 24, 64, 128])), "protos": draw(st.integers(1, 10)), "noise": draw(st.sampled_from([0.01, 0.1, 0.3])),
            "n": draw(st.integers(20, 200)), "mix": draw(st.integers(0, 2 ** 16)), "train": draw(st.sampled_from([3, 10, 20, 30])),
            "k": draw(st.integers(1, 8)), "classify": draw(st.sampled_from(["LL", "LL", "hamming"])),
            "merge": draw(st.sampled_from(["Hellinger", "Hellinger", "KlDiv"])),
            "weight": draw(st.sampled_from(["linear", "linear", "sqrt", "none"])),
            "form": draw(st.sampled_from(["array", "array", "Bits"])), "defaults": draw(st.booleans())}


def run_long(case, info):
    rs = np.random.RandomState(case["mix"])
    protos = rs.randint(0, 2, (case["protos"], case["bits"]))
    which = rs.randint(0, case["protos"], case["n"])
    bufs = (protos[which] ^ (rs.random_sample((case["n"], case["bits"])) < case["noise"])).tolist()
    run_history(dict(case, bufs=bufs), info, 60)


def run_cluster(case, info):
    bits = len(case["samples"][0])
    n = case["start"]
    ones = [min(n, b * n + c if b == 0 else b * n - c) for b, c in zip(case["samples"][0], case["counts"])]
    ones = [max(0, o) for o in ones]
    total = [[n - o, o] for o in ones]
    a = Cluster(np.array(total, dtype=float) / n, 7) if n == 1 else Cluster(np.array(total, dtype=float) / n, 7, n)
    for s in case["samples"][1:]:
        a.add_sample(np.array(s, dtype=np.int_))
        total = [[x + 1 - b, y + b] for (x, y), b in zip(total, s)]
        n += 1
    if case["other"]:
        o = Cluster(np.array([[1 - b, b] for b in case["other"][0]], dtype=float), 9)
        for s in case["other"][1:]:
            o.add_sample(np.array(s, dtype=np.int_))
        a.merge_cluster(o)
        for s in case["other"]:
            total = [[x + 1 - b, y + b] for (x, y), b in zip(total, s)]
            n += 1
        check(len(o) == len(case["other"]), "merging changed the other cluster")
    check(len(a) == n and a.uid == 7, "size %s, expected %d", len(a), n)
    check(np.allclose(a.dist, np.array(total) / n, atol=1e-9), "distribution %s", a.dist)
    check([int(x) for x in a.hard_bits] == [1 if y > x else 0 for x, y in total], "hard bits %s", list(a.hard_bits))
    info.mark(n > 2 and bits > 1)


@st.composite
def clusters(draw):
    bits = draw(st.integers(1, 6))
    one = st.lists(st.integers(0, 1), min_size=bits, max_size=bits)
    start = draw(st.sampled_from([1, 1, 1, 2, 3, 7, 10, 49, 100, 1000]))
    return {"samples": draw(st.lists(one, min_size=1, max_size=6)), "other": draw(st.lists(one, max_size=4)), "start": start,
            "counts": draw(st.lists(st.integers(0, start if start > 1 else 0), min_size=bits, max_size=bits))}


def subs():
    return [
        Sub("history", histories, run_history,
            "histories of buffers drawn from noisy prototypes through training and classification, all metrics and weights; "
            "non-trivial when two or more clusters compete for a buffer", 2400, 40000),
        Sub("long", long_histories, run_long, "histories of 20 to 200 buffers of up to 128 bits, up to 30 for training and 8 clusters; "
            "same rule", 80, 1600),
        Sub("cluster", clusters, run_cluster, "samples added to and merged into one cluster; non-trivial with 3+ samples", 1500),
    ]
