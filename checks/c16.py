"""C16: the classifying decoder keeps one bit model per class of buffers and rectifies every word with its own class's model"""
import numpy as np
from hypothesis import strategies as st
from vlib import bitref, stub
from vlib.core import Sub, check
from checks.c15 import WINDOWS, close, same
from decoders import ClassifyingEntropyDecoder
from inference import BufferClassifier

ASSUMPTIONS = ["the LDPC decoder is scripted; information bits come first in a codeword",
               "histories in which an entropy lies within 1e-9 of the threshold end there",
               "labels are compared with a buffer classifier of its own, see C11"]


@st.composite
def cases(draw, kind, max_bufs=14):
    link = draw(stub.links(max_bufs=max_bufs, min_bufs=2))
    k = 8 * (sum(stub.D.messages[i].size + 8 for i in link["ids"]) + link["pad"])
    n = k + link["parity"]
    case = {"link": link, "thr": draw(bitref.thresholds()),
            "model": draw(st.sampled_from([k, k, k // 2, 8, 5, k + 1, n, k - 1])),
            "window": draw(st.sampled_from([None, None, 1, 2, 3, 5])), "clip": draw(st.sampled_from([0.7, 1, 2, 5, 10])),
            "train": draw(st.integers(2, 5)), "clusters": draw(st.sampled_from([1, 2, 2, 3, 6])), "cluster": draw(st.integers(0, 1)),
            "center": draw(st.integers(0, 6)), "slope": draw(st.sampled_from([0.35, 1.0, 2.0, 0.003])),
            "flip": draw(st.sampled_from([0, 0.0013, 0.0137, 0.0823, 0.2911])), "method": 0}
    if kind == "gal":
        case["method"] = draw(st.sampled_from([0, 3]))
    if kind == "wbf":
        case["method"] = draw(st.sampled_from([0, 0, 1, 2]))
    if draw(st.integers(0, 4)) == 0:
        case["fixed"] = [draw(st.sampled_from([0.0, 1.0, 0.02, 0.97, 0.31, 0.5])) for _ in range(7)]
        case["extra_rows"] = draw(st.sampled_from([0, 0, 4]))
        if case["method"] == 3:
            case["window"] = None
    return case


class Labels:
    """which model a word belongs to"""

    def __init__(self, case):
        self.case = case
        self.classifier = BufferClassifier(case["train"], case["clusters"])
        self.turn = -1

    def next(self, bits):
        if self.case["clusters"] == 1:
            return 0
        if self.case["cluster"]:
            return int(self.classifier.classify(bits))
        self.turn = (self.turn + 1) % self.case["clusters"]
        return self.turn


def run(case, info, kind):
    link = stub.Link(case["link"])
    stb = {"spa": stub.LogSpa, "wbf": stub.Wbf, "gal": stub.GalBf}[kind](link.n, link.k)
    m = case["model"]
    fixed = None
    if "fixed" in case:
        fixed = np.array([case["fixed"][(i * i + i // 3) % 7] for i in range(m + case["extra_rows"])])
    dec = ClassifyingEntropyDecoder(stb, m, case["thr"], case["clip"], case["train"], case["clusters"], case["window"],
                                    case["center"], case["slope"], case["flip"], case["cluster"],
                                    None if fixed is None else np.column_stack((1 - fixed, fixed)), case["method"])
    models = [bitref.BitModel(case["window"], case["flip"]) for _ in range(case["clusters"])]
    labels = Labels(case)
    for t, b in enumerate(case["link"]["bufs"]):
        sent, llr = link.channel(b)
        raw = (llr < 0).astype(np.int_) if kind == "gal" else llr
        stb.script(raw, *link.answers(b, sent, llr))
        keep = llr.copy()
        res = dec.decode_buffer(llr)
        check(same(llr, keep), "the received word was modified")
        check(len(res) == 9, "%d results", len(res))
        hard = (llr < 0).astype(np.int_)
        label = labels.next(hard[:m])
        check(int(res[8]) == label, "buffer %d: label %s, expected %d", t, res[8], label)
        want = llr.copy()
        skip = np.zeros(link.n, dtype=bool)
        p1 = None
        if label >= 0:
            model = models[label]
            if fixed is not None:
                p1, conf = fixed[:m], 1.0
            elif model.size:
                p1, conf = model.p1, bitref.confidence(model.size, case["center"], case["slope"])
        term = np.zeros(link.n)
        if p1 is not None:
            low = bitref.structural(bitref.h2(p1), p1, case["thr"])
            if low is None:
                info.label("entropy at the threshold")
                return
            idx = np.flatnonzero(low)
            term[idx] = conf * np.log((bitref.EPS + 1 - p1) / (p1 + bitref.EPS))[idx]
            near_zero = np.abs(term[idx]) < 1e-9
        if np.abs(term).max() > 0 and label >= 0:
            info.mark()
            info.label("rectified", "label %d" % label)
        top = np.abs(llr).max()
        priors = np.zeros(link.n)
        if label < 0:
            info.label("classifier in training")
        elif kind == "spa":
            want = np.clip(llr + term, -case["clip"] * top, case["clip"] * top)
        elif np.abs(term).max() > 0 and case["method"] == 0:
            want = llr + term * min(1.0, top / np.abs(term).max())
            if np.abs(want).max() < 1e-6:
                return
            skip = np.abs(want) < 1e-9
            want = want * top / np.abs(want).max()
        elif np.abs(term).max() > 0 and kind == "wbf":  # the word is left as it is, the model's reliabilities go with it
            limit = min(top, 1.0 if case["method"] == 1 else np.sqrt(np.mean(llr ** 2)) / stb.h.sum(axis=1).mean())
            priors = -np.sign(llr) * term
            if np.abs(priors).max() > limit:
                priors *= limit / np.abs(priors).max()
        elif np.abs(term).max() > 0:
            if np.any(near_zero & (p1[idx] != 0.5)):
                return
            if case["window"] is None or model.size >= case["window"]:
                want[idx] = np.where(p1[idx] > 0.5, -1.0, 1.0)
                skip[idx] = near_zero
        got = stb.inputs[-1]
        if kind == "gal":
            check(same(got[~skip], (want < 0).astype(np.int_)[~skip]), "buffer %d: the channel decoder was given %s, expected %s", t,
                  got, (want < 0).astype(np.int_))
        else:
            check(close(got[~skip], want[~skip]), "buffer %d: the channel decoder was given %s, expected %s", t, got, want)
        if kind == "wbf":
            given = stb.priors[-1] if stb.priors[-1] is not None else np.zeros(link.n)
            check(close(given, priors), "buffer %d: reliabilities %s, expected %s", t, given, priors)
        a = stb.answer
        check(same(res[0], a["est"]), "buffer %d: the estimate is not the one of the channel decoder", t)
        if kind == "spa":
            check(same(res[1], a["llr"]), "buffer %d: the llr is not the one of the channel decoder", t)
        check(bool(res[2]) == a["ok"] and int(res[3]) == a["iter"], "buffer %d: success and iterations (%s, %s)", t, res[2], res[3])
        check(same(res[4], a["syn"]) and same(res[5], a["val"]), "buffer %d: syndrome or validity", t)
        if label < 0:
            check(np.size(res[6]) == 0 and np.size(res[7]) == 0, "buffer %d: a model without a class", t)
            continue
        if fixed is None:
            model.add(a["est"][:m] if a["ok"] else hard[:m])
            p1 = model.p1
        check(close(res[6], np.column_stack((1 - p1, p1))), "buffer %d: distribution %s, expected p1 %s", t, res[6], p1)
        low = bitref.structural(bitref.h2(p1), p1, case["thr"])
        if low is None:
            info.label("entropy at the threshold")
            return
        check(same(res[7], np.flatnonzero(low)), "buffer %d: structural bits %s, expected %s", t, res[7], np.flatnonzero(low))


def subs():
    rule = "non-trivial when some word was rectified"
    return [
        Sub("spa", lambda: cases("spa"), lambda c, i: run(c, i, "spa"), "histories of up to 14 buffers of one or two kinds, one to "
            "three classes (clustered or in turn), learned and given models, belief propagation; " + rule, 2400),
        Sub("wbf", lambda: cases("wbf"), lambda c, i: run(c, i, "wbf"), "as spa, weighted bit flipping; " + rule, 1200),
        Sub("gal", lambda: cases("gal"), lambda c, i: run(c, i, "gal"), "as spa, Gallager bit flipping with summed or forced bits; "
            + rule, 1600),
    ] + [
        Sub("long-" + kind, lambda kind=kind: stub.long(cases(kind), window=WINDOWS, train=[2, 5, 12, 25], clusters=[1, 2, 3, 5, 6],
                                                        center=[0, 10, 40]),
            lambda c, i, kind=kind: run(stub.unroll(c), i, kind), "as %s, 20 to 270 words; " % kind + rule, n, 20 * n)
        for kind, n in (("spa", 80), ("wbf", 40), ("gal", 60))
    ]
