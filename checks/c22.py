"""C22: performance figures follow their definitions"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check
from utils.performance_analysis import ber, stats

ASSUMPTIONS = ["recall and F1 are claimed for classes which occur; precision also for classes which are predicted or not at all"]


def close(a, b):
    return abs(float(a) - b) < 1e-9


def compare(cm, res):
    got_cm, recall, precision, f1, accuracy = res
    n = cm.shape[0]
    check(np.array_equal(np.asarray(got_cm), cm), "confusion matrix %s, expected %s", got_cm, cm)
    check(close(accuracy, np.trace(cm) / cm.sum()), "accuracy %s", accuracy)
    for c in range(n):
        tp, actual, predicted = cm[c, c], cm[c].sum(), cm[:, c].sum()
        want_p = tp / predicted if predicted else (1.0 if not actual else 0.0)
        check(close(precision[c], want_p), "precision of class %d is %s, expected %s", c, precision[c], want_p)
        if actual:
            want_r = tp / actual
            check(close(recall[c], want_r), "recall of class %d is %s, expected %s", c, recall[c], want_r)
            want_f = 2 * want_p * want_r / (want_p + want_r) if want_p + want_r > 0 else 0.0
            check(close(f1[c], want_f), "F1 of class %d is %s, expected %s", c, f1[c], want_f)
        elif not predicted:
            check(np.isnan(f1[c]) or close(f1[c], 1), "F1 of class %d, which isn't there, is %s", c, f1[c])


def fit(xs, n):
    return [xs[i % len(xs)] for i in range(n)]


def run_labels(case, info):
    a, p = case["a"], fit(case["p"], len(case["a"]))
    classes = sorted(set(a) | set(p))
    cm = np.zeros((len(classes), len(classes)), dtype=int)
    place = {c: i for i, c in enumerate(classes)}
    for x, y in zip(a, p):
        cm[place[x], place[y]] += 1
    names = {"plain": lambda x: x, "minus": lambda x: x - 1, "text": lambda x: "abcd"[x] * (x + 1) if x < 4 else "e%02d" % x}[
        case.get("names", "plain")]
    actual, predicted = np.array([names(x) for x in a]), np.array([names(x) for x in p])
    keep = actual.copy(), predicted.copy()
    compare(cm, stats(actual, predicted))
    check(np.array_equal(actual, keep[0]) and np.array_equal(predicted, keep[1]), "the labels were modified")
    info.label("classes:%d" % len(classes))
    info.mark(len(classes) > 1)


def run_matrix(case, info):
    cm = np.array(case, dtype=int)
    if cm.sum() == 0:
        return
    keep = cm.copy()
    compare(cm, stats(cm=cm))
    check(np.array_equal(cm, keep), "the matrix was modified")
    if (cm.sum(axis=0) == 0).any():
        info.label("class never predicted")
    if (cm.sum(axis=1) == 0).any():
        info.label("class never occurs")
    if (np.diag(cm) == 0).any():
        info.label("class never right")
    info.mark(cm.shape[0] > 1)


def run_ber(case, info):
    dt = case["dtype"]
    a = np.array(case["a"], dtype=dt)
    b = np.array(fit(case["b"], len(case["a"])), dtype=dt)
    keep = a.copy(), b.copy()
    want = sum(x != y for x, y in zip(case["a"], fit(case["b"], len(a)))) / len(a)
    check(close(ber(a, b), want), "bit error rate %s, expected %s", ber(a, b), want)
    check(close(ber(b, a), want), "bit error rate isn't symmetric")
    check(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "the bits were modified")
    info.label(dt)
    info.mark(0 < want < 1)


@st.composite
def matrices(draw):
    n = draw(st.integers(1, 4))
    el = st.sampled_from([0, 0, 1, 2, 7])
    return draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=n, max_size=n))


def run_large(case, info):
    rs = np.random.RandomState(case["seed"])
    names = np.sort(rs.choice(60, case["classes"], replace=False))
    a = names[rs.randint(0, case["classes"], case["n"])]
    p = np.where(rs.random_sample(case["n"]) < case["noise"], names[rs.randint(0, case["classes"], case["n"])], a)
    run_labels({"a": a.tolist(), "p": p.tolist()}, info)
    cm = rs.randint(0, 10 ** 6, (case["classes"],) * 2) * (rs.random_sample((case["classes"],) * 2) < 0.6)
    run_matrix(cm.tolist(), info)
    bits = rs.randint(0, 2, (2, 8 * case["n"]))
    run_ber({"a": bits[0].tolist(), "b": (bits[0] ^ (rs.random_sample(8 * case["n"]) < case["noise"])).astype(int).tolist(),
             "dtype": "int64"}, info)
    run_ber({"a": bits[0].tolist(), "b": bits[1].tolist(), "dtype": "uint8"}, info)


def subs():
    lab = st.lists(st.integers(0, 3), min_size=1, max_size=14)
    bits = st.lists(st.integers(0, 1), min_size=1, max_size=24)
    return [
        Sub("labels", lambda: st.fixed_dictionaries({"a": lab, "p": lab, "names": st.sampled_from(["plain", "minus", "text"])}), run_labels, "pairs of labelings; non-trivial with several "
            "classes", 1500),
        Sub("matrix", matrices, run_matrix, "confusion matrices with empty rows and columns; non-trivial with several classes", 2000),
        Sub("large", lambda: st.fixed_dictionaries({"classes": st.sampled_from([2, 11, 25]), "n": st.sampled_from([40, 300, 2000, 20000]),
                                                    "noise": st.sampled_from([0.0, 0.1, 0.9]), "seed": st.integers(0, 2 ** 16)}),
            run_large, "as labels, matrix and ber, up to 25 classes, 20000 labels and 160000 bits", 120, 1200),
        Sub("ber", lambda: st.fixed_dictionaries({"a": bits, "b": bits, "dtype": st.sampled_from(["int64", "uint8", "bool", "int8"])}),
            run_ber, "pairs of bit arrays of several types; non-trivial when they agree and differ somewhere", 1000),
    ]
