"""C15: entropy decoders rectify a failed word with what the model of earlier recovered buffers says, and nothing else"""
import numpy as np
from hypothesis import strategies as st
from vlib import bitref, stub
from vlib.core import Sub, check
from decoders.entropy_bitwise_decoder import (EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder,
                                              EntropyBitwiseWeightedDecoder)

ASSUMPTIONS = ["the LDPC decoder is scripted; information bits come first in a codeword",
               "histories in which an entropy lies within 1e-9 of the threshold end there",
               "the Bayes estimator is claimed until it first rescales its counts (window known)"]


WINDOWS = [None, None, 7, 20, 33, 50]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


@st.composite
def predefined(draw, bits):
    rows = bits + draw(st.sampled_from([0, 0, 3, -5]))
    return [draw(st.sampled_from([0.0, 1.0, 0.02, 0.97, 0.31, 0.5]))for _ in range(8)], max(rows, 1)


@st.composite
def cases(draw, kind):
    link = draw(stub.links())
    whole = sum(stub.D.messages[i].size + 8 for i in link["ids"])
    case = {"link": link, "thr": draw(bitref.thresholds()),
            "model": 8 * draw(st.sampled_from([whole, whole, whole + link["pad"], max(1, whole - 3),
                                               stub.D.messages[link["ids"][0]].size + 8])),
            "window": draw(st.sampled_from([None, None, 1, 2, 3, 5])), "clip": draw(st.sampled_from([0.4, 1, 2, 5, 10]))}
    if kind in ("llr", "flip"):
        case["min_data"] = draw(st.integers(0, 4))
        if draw(st.integers(0, 3)) == 0:
            case["predefined"] = draw(predefined(case["model"]))
    else:
        case.update({"centers": [draw(st.integers(0, 6)), draw(st.integers(0, 6))],
                     "slopes": [draw(st.sampled_from([0.35, 1.0, 2.0, 0.003])), draw(st.sampled_from([0.35, 1.0, 2.0, 0.003]))],
                     "scheme": draw(st.integers(0, 5)), "flip": draw(st.sampled_from([0, 0.0013, 0.0137, 0.0823, 0.2911])),
                     "corrected": draw(st.booleans())})
        if kind == "bayes":
            case["window"] = draw(st.sampled_from([5, 6, 8, 20]))
    return case


def predefined_p1(case):
    vals, rows = case["predefined"]
    return np.array([vals[(i * i + i // 3) % len(vals)] for i in range(rows)])


def start(case, soft=True):
    link = stub.Link(case["link"])
    return link, stub.LogSpa(link.n, link.k), min(case["model"], link.k)


def compare_outcome(res, stb, info, bits):
    a = stb.answer
    est, llr, ok, iters = res[:4]
    check(same(est, a["est"]), "the estimate is not the one of the channel decoder")
    check(same(llr, a["llr"]), "the llr is not the one of the channel decoder")
    check(bool(ok) == a["ok"] and int(iters) == a["iter"], "success and iterations (%s, %s), expected (%s, %s)", ok, iters,
          a["ok"], a["iter"])


def run_simple(case, info, soft):
    link, stb, model_len = start(case)
    fixed = None
    kw = {}
    if "predefined" in case:
        fixed = predefined_p1(case)
        kw["model"] = np.column_stack((1 - fixed, fixed))
        model_len = min(model_len, len(fixed))
        fixed = fixed[:model_len]
    if soft:
        dec = EntropyBitwiseDecoder(stb, case["model"], case["thr"], case["clip"], case["min_data"], case["window"], **kw)
    else:
        dec = EntropyBitwiseFlippingDecoder(stb, case["model"], case["thr"], case["min_data"], case["window"], **kw)
    model = bitref.BitModel(case["window"])
    for t, b in enumerate(case["link"]["bufs"]):
        sent, llr = link.channel(b)
        word = llr if soft else (llr < 0).astype(np.int_)
        stb.script(word, *link.answers(b, sent, llr))
        keep = word.copy()
        res = dec.decode_buffer(word)
        check(same(word, keep), "the received word was modified")
        check(len(stb.inputs) > 0 and same(stb.inputs[0], word), "buffer %d: the received word was not decoded first", t)
        want, skip = word.copy(), np.zeros(len(word), dtype=bool)
        if not stb.first["ok"]:
            if fixed is not None or model.size >= max(case["min_data"], 1):
                p1 = fixed if fixed is not None else model.p1
                low = bitref.structural(bitref.h2(p1), p1, case["thr"])
                if low is None:
                    info.label("entropy at the threshold")
                    return
                idx = np.flatnonzero(low)
                if soft:
                    lim = case["clip"] * np.abs(word).max()
                    want[idx] += np.clip(np.log((bitref.EPS + 1 - p1) / (p1 + bitref.EPS)), -lim, lim)[idx]
                else:
                    want[idx] = (p1 > 0.5)[idx]
                    skip[idx] = (p1 == 0.5)[idx]
                if not same(want, word):
                    info.mark()
                    info.label("rectified")
        else:
            check(len(stb.inputs) == 1, "buffer %d: decoded again after success", t)
        got = stb.inputs[-1]
        check(close(got[~skip], want[~skip]), "buffer %d: the channel decoder was given %s, expected %s", t, got, want)
        compare_outcome(res, stb, info, model_len)
        bits = stb.answer["est"][:model_len]
        count, full = stub.count_messages(bits)
        check(int(res[4]) == count, "buffer %d: %s messages, expected %d", t, res[4], count)
        if full and fixed is None:
            model.add(bits)
            info.label("learned")


class Beta:
    """mode of the Beta posterior with one imaginary zero and one"""

    def __init__(self, n):
        self.ones = np.ones(n, dtype=int)
        self.zeros = np.ones(n, dtype=int)

    def add(self, bits):
        self.ones += bits
        self.zeros += 1 - bits

    @property
    def size(self):
        return int(self.ones[0] + self.zeros[0] - 2)


def p1_of(m, case, bayes):
    if bayes:
        v = (m.ones - 1) / m.size
    else:
        v = np.sum(m.samples, axis=0) / m.size
        if not case["corrected"]:
            return v
    return np.clip((v - case["flip"]) / (1 - 2 * case["flip"]), 0, 1)


def variance(m, p1, case, bayes):
    if bayes:
        t = m.ones + m.zeros
        return 12 * np.mean(m.ones * m.zeros / ((t + 1) * t.astype(float) ** 2)) / (1 - 2 * case["flip"]) ** 2
    return 2 * np.mean(p1 - p1 ** 2)


def run_weighted(case, info, bayes):
    link, stb, model_len = start(case)
    dec = EntropyBitwiseWeightedDecoder(stb, case["model"], case["thr"], case["clip"], case["window"], case["centers"][0],
                                        case["slopes"][0], case["centers"][1], case["slopes"][1], case["scheme"],
                                        "Bayes" if bayes else "MLE", case["flip"], case["corrected"])
    good, every = (Beta(model_len), Beta(model_len)) if bayes else (bitref.BitModel(case["window"]), bitref.BitModel(case["window"]))
    for t, b in enumerate(case["link"]["bufs"]):
        if bayes and every.size + 3 > 2 * case["window"]:
            info.label("stopped at rescaling")
            return
        sent, llr = link.channel(b)
        stb.script(llr, *link.answers(b, sent, llr))
        keep = llr.copy()
        res = dec.decode_buffer(llr)
        check(same(llr, keep), "the received word was modified")
        check(len(stb.inputs) > 0 and same(stb.inputs[0], llr), "buffer %d: the received word was not decoded first", t)
        want = llr.copy()
        if stb.first["ok"]:
            check(len(stb.inputs) == 1, "buffer %d: decoded again after success", t)
        else:
            lows, terms, var = [], [], []
            for m in (good, every):
                if m.size:
                    p1 = p1_of(m, case, bayes)
                    low = bitref.structural(bitref.h2(p1), p1, case["thr"])
                    if low is None:
                        info.label("entropy at the threshold")
                        return
                    lows.append(low)
                    terms.append(np.log((bitref.EPS + 1 - p1) / (p1 + bitref.EPS)))
                    var.append(variance(m, p1, case, bayes))
                else:
                    lows.append(np.zeros(model_len, dtype=bool))
                    terms.append(np.zeros(model_len))
                    var.append(1.0)
            if lows[0].any() or lows[1].any():
                conf = [bitref.confidence(m.size, c, s) for m, c, s in zip((good, every), case["centers"], case["slopes"])]
                a, e = conf
                if case["scheme"] == 1 and a + e > 0:
                    conf = [a * a / (a + e), e * e / (a + e)]
                elif case["scheme"] == 2 and 2 * a + e > 0:
                    conf = [2 * a * a / (2 * a + e), e * e / (2 * a + e)]
                elif case["scheme"] == 3:
                    conf = [a, 0.0]
                elif case["scheme"] == 4:
                    conf = [c * (1 - np.exp(-0.1 / v)) if v > 0 else c for c, v in zip(conf, var)]
                elif case["scheme"] == 5:
                    conf = [0.0, e]
                for low, term, c in zip(lows, terms, conf):
                    idx = np.flatnonzero(low)
                    want[idx] += c * term[idx]
                lim = case["clip"] * np.abs(llr).max()
                want = np.clip(want, -lim, lim)
                if not same(want, llr):
                    info.mark()
                    info.label("rectified", "scheme %d" % case["scheme"])
        check(close(stb.inputs[-1], want), "buffer %d: the channel decoder was given %s, expected %s", t, stb.inputs[-1], want)
        compare_outcome(res, stb, info, model_len)
        check(same(res[4], stb.answer["syn"]) and same(res[5], stb.answer["val"]), "buffer %d: syndrome or validity", t)
        bits = stb.answer["est"][:model_len]
        count, full = stub.count_messages(bits)
        check(int(res[6]) == count, "buffer %d: %s messages, expected %d", t, res[6], count)
        if full:
            good.add(bits)
            info.label("learned")
        every.add(bits if full or stb.first["ok"] else (llr < 0).astype(np.int_)[:model_len])
        for name, m, dist, idx in (("good", good, res[7], res[9]), ("every", every, res[8], res[10])):
            if not m.size:
                check(np.size(dist) == 0 and np.size(idx) == 0, "buffer %d: model of %s buffers without any", t, name)
                continue
            p1 = p1_of(m, case, bayes)
            check(close(dist, np.column_stack((1 - p1, p1))), "buffer %d: distribution of %s buffers %s, expected p1 %s", t, name,
                  dist, p1)
            low = bitref.structural(bitref.h2(p1), p1, case["thr"])
            if low is None:
                info.label("entropy at the threshold")
                return
            check(same(idx, np.flatnonzero(low)), "buffer %d: structural bits of %s buffers %s, expected %s", t, name, idx,
                  np.flatnonzero(low))


def probe_bayes():
    """window 4; the first bit is always 0, the second one alternates: when the counts are rescaled, the second bit's (5, 5)
    becomes (1, 1), whose mode is undefined and is taken for a certain 0"""
    link = stub.Link({"ids": [stub.SMALL[0]], "pad": 0, "parity": 4, "seed": 0, "bufs": []})
    stb = stub.LogSpa(link.n, link.k)
    dec = EntropyBitwiseWeightedDecoder(stb, link.k, 0.5, 2, 4, estimator="Bayes")
    for i in range(8):
        llr = np.ones(link.n)
        llr[1] = 1 - 2 * (i % 2)
        est = (llr < 0).astype(np.int_)
        ans = {"est": est, "llr": llr, "ok": True, "iter": 1, "syn": np.zeros(2, dtype=np.int_),
               "val": np.zeros(link.n, dtype=np.int_)}
        stb.script(llr, ans, ans)
        res = dec.decode_buffer(llr)
    p1 = float(res[8][1, 1])
    return None if abs(p1 - 0.5) < 0.1 else "a bit which was 1 in half of the buffers has an estimated probability of %s" % p1


def probes():
    return (("bayes-rescale", probe_bayes),)


def subs():
    rule = "non-trivial when some word was rectified"
    return [
        Sub("llr", lambda: cases("llr"), lambda c, i: run_simple(c, i, True), "histories of scripted decodings; " + rule, 2400),
        Sub("flip", lambda: cases("flip"), lambda c, i: run_simple(c, i, False), "as llr, on hard bits; " + rule, 2400),
        Sub("weighted", lambda: cases("weighted"), lambda c, i: run_weighted(c, i, False),
            "six confidence schemes, windows, channel corrected models; " + rule, 2400),
        Sub("long-llr", lambda: stub.long(cases("llr"), window=WINDOWS, min_data=[0, 10, 25, 60]),
            lambda c, i: run_simple(stub.unroll(c), i, True), "as llr, 20 to 270 words; " + rule, 80, 1600),
        Sub("long-flip", lambda: stub.long(cases("flip"), window=WINDOWS, min_data=[0, 10, 25, 60]),
            lambda c, i: run_simple(stub.unroll(c), i, False), "as flip, 20 to 270 words; " + rule, 80, 1600),
        Sub("long-weighted", lambda: stub.long(cases("weighted"), window=WINDOWS, centers=[[0, 0], [5, 30], [30, 10], [60, 60]]),
            lambda c, i: run_weighted(stub.unroll(c), i, False), "as weighted, 20 to 270 words; " + rule, 80, 1600),
        Sub("long-bayes", lambda: stub.long(cases("bayes"), window=[15, 30, 60], centers=[[0, 0], [5, 30], [30, 10], [60, 60]]),
            lambda c, i: run_weighted(stub.unroll(c), i, True), "as bayes, 20 to 270 words; " + rule, 80, 1600),
        Sub("bayes", lambda: cases("bayes"), lambda c, i: run_weighted(c, i, True), "as weighted, Bayes estimator; " + rule, 1600),
    ]
