"""C19: the DUDE decoder adds per bit denoising of the history of a word's class to the word"""
import numpy as np
from hypothesis import strategies as st
from vlib import bitref, stub
from vlib.core import Sub, check
from checks.c15 import close, same
from checks.c16 import Labels
from decoders import ClassifyingDudeDecoder

ASSUMPTIONS = ["the LDPC decoder is scripted; information bits come first in a codeword",
               "labels are compared with a buffer classifier of its own, see C11; contexts have at least one symbol"]


@st.composite
def cases(draw):
    link = draw(stub.links(max_bufs=14, min_bufs=2, max_msgs=1))
    k = 8 * (sum(stub.D.messages[i].size + 8 for i in link["ids"]) + link["pad"])
    n = k + link["parity"]
    return {"link": link, "model": draw(st.sampled_from([k, k // 2, 8, 5, k + 1, n, k - 1])),
            "clip": draw(st.sampled_from([0.7, 1, 2, 5, 10])), "train": draw(st.integers(2, 5)),
            "clusters": draw(st.sampled_from([1, 2, 2, 3, 6])), "cluster": draw(st.integers(0, 1)), "ctx": draw(st.integers(1, 4)),
            "center": draw(st.integers(0, 6)), "slope": draw(st.sampled_from([0.35, 1.0, 2.0, 0.003])),
            "flip": draw(st.sampled_from([0, 0.0137, 0.0823, 0.1931]))}


class Dude:
    """left context denoiser of one bit position: counts by context, inverted through the channel, floored at one"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.past = []
        self.counts = {}

    def step(self, o):
        if len(self.past) < self.ctx:
            self.past.append(o)
            return float(o)
        c = self.counts.setdefault(tuple(self.past[-self.ctx:]), [0, 0])
        c[o] += 1
        self.past.append(o)
        f = self.f
        x = [max(1.0, ((1 - f) * c[i] - f * c[1 - i]) / (1 - 2 * f)) for i in (0, 1)]
        w = [x[i] * ((1 - f) if i == o else f) for i in (0, 1)]
        return w[1] / (w[0] + w[1])


def run(case, info):
    link = stub.Link(case["link"])
    stb = stub.LogSpa(link.n, link.k)
    m = case["model"]
    dec = ClassifyingDudeDecoder(stb, m, case["clip"], case["train"], case["clusters"], case["ctx"], case["center"],
                                 case["slope"], case["flip"], case["cluster"])
    dudes = [[Dude(case["ctx"], case["flip"]) for _ in range(m)] for _ in range(case["clusters"])]
    size = [0] * case["clusters"]
    labels = Labels(case)
    for t, b in enumerate(case["link"]["bufs"]):
        sent, llr = link.channel(b)
        stb.script(llr, *link.answers(b, sent, llr))
        keep = llr.copy()
        res = dec.decode_buffer(llr)
        check(same(llr, keep), "the received word was modified")
        hard = (llr < 0).astype(np.int_)
        label = labels.next(hard[:m])
        check(int(res[4]) == label, "buffer %d: label %s, expected %d", t, res[4], label)
        want = llr.copy()
        if label >= 0:
            size[label] += 1
            p1 = np.array([d.step(int(o)) for d, o in zip(dudes[label], hard[:m])])
            term = bitref.confidence(size[label], case["center"], case["slope"]) * np.log(
                (1 - p1 + bitref.EPS) / (p1 + bitref.EPS))
            want[:m] += term
            lim = case["clip"] * np.abs(llr).max()
            want = np.clip(want, -lim, lim)
            if np.any((want < 0) != hard):
                info.label("denoised")
            if size[label] > case["ctx"]:
                info.mark()
        else:
            info.label("classifier in training")
        check(close(stb.inputs[-1], want), "buffer %d: the channel decoder was given %s, expected %s", t, stb.inputs[-1], want)
        a = stb.answer
        check(same(res[0], a["est"]) and same(res[1], a["llr"]), "buffer %d: not the channel decoder's answer", t)
        check(bool(res[2]) == a["ok"] and int(res[3]) == a["iter"], "buffer %d: success and iterations (%s, %s)", t, res[2], res[3])
        sure = np.abs(want) > 1e-9
        check(same(np.asarray(res[5])[sure], (want < 0).astype(np.int_)[sure]), "buffer %d: denoised bits", t)


def subs():
    return [Sub("history", cases, run, "histories of up to 14 buffers of one or two kinds, one to three classes; non-trivial when a "
                "class has more buffers than the context is long", 1600),
            Sub("long", lambda: stub.long(cases(), train=[2, 5, 12, 25], clusters=[1, 2, 3, 5], center=[0, 10, 40], ctx=[1, 2, 3, 6]),
                lambda c, i: run(stub.unroll(c), i), "as history, 20 to 270 buffers; same rule", 64, 1600)]
