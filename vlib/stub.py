"""Scripted channel decoders and histories of transmissions.

The telemetry decoders wrap an LDPC decoder. Here that decoder is replaced by one which answers from a script (success or
failure, right or wrong bits) and records what it was asked, so that what the telemetry decoder feeds it, learns from it and
returns can be compared with a reference for any course of events, including ones which a real code rarely produces.
The answer depends on the word it is asked to decode only: the unmodified channel word gets the first answer of the script,
every other word the second.
"""
import random
import numpy as np
from hypothesis import strategies as st
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder
from vlib import gens
from vlib.core import Violation

D = gens.DIALECT


class _Scripted:
    def _setup(self, n, k):
        self.n, self.info_idx = n, np.arange(n) < k
        self.h = np.ones((2, n), dtype=np.int_)
        self.max_iter = 10
        self.inputs = []
        self.answers = []
        self.answer = None

    def script(self, raw, first, second):
        self.raw, self.first, self.second = np.array(raw), first, second
        self.inputs = []
        self.answers = []
        self.answer = None

    def _answer(self, word):
        word = np.array(word)
        if word.shape != self.raw.shape:
            raise Violation("the channel decoder was asked to decode %d values instead of %d" % (word.size, self.raw.size))
        self.inputs.append(word)
        self.answer = self.first if np.array_equal(word, self.raw) else self.second
        self.answers.append(self.answer)
        return self.answer

    def preview(self, word):
        """the answer which a word would get; None when that depends on rounding"""
        if np.array_equal(word, self.raw):
            return self.first
        return None if np.allclose(word, self.raw, rtol=1e-9, atol=1e-9) else self.second

    def info_bits(self, estimate):
        return estimate[self.info_idx]


class LogSpa(_Scripted, LogSpaDecoder):
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_word, max_iter=None):
        a = self._answer(channel_word)
        return a["est"].copy(), a["llr"].copy(), a["ok"], a["iter"], a["syn"].copy(), a["val"].copy()


class Wbf(_Scripted, WbfDecoder):
    def __init__(self, n, k):
        self._setup(n, k)
        self.priors = []
        r, c = np.indices((n - k + 2, n))
        self.h = ((7 * r + 3 * c + r * c) % 5 == 0).astype(np.int_)  # only its check degrees matter

    def decode(self, channel_word, priors=None, max_iter=None):
        self.priors.append(None if priors is None else np.array(priors))
        a = self._answer(channel_word)
        return a["est"].copy(), a["ok"], a["iter"], a["syn"].copy(), a["val"].copy()


class GalBf(_Scripted, GalBfDecoder):
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_word, max_iter=None):
        a = self._answer(channel_word)
        return a["est"].copy(), a["ok"], a["iter"], a["syn"].copy(), a["val"].copy()


KINDS = ["sent", "sent", "hard", "damaged"]


@st.composite
def buffers(draw):
    return {"variant": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "seq": draw(st.sampled_from([0, 0, 1, 7])),
            "mag": draw(st.sampled_from(["bsc", "awgn", "awgn"])), "rate": draw(st.sampled_from([0, 0.01, 0.05, 0.2])),
            "seed": draw(st.integers(0, 2 ** 16)), "ok1": draw(st.booleans()), "e1": draw(st.sampled_from(KINDS)),
            "ok2": draw(st.booleans()), "e2": draw(st.sampled_from(KINDS)), "source": draw(st.sampled_from([0, 0, 0, 1]))}


SMALL = [i for i in gens.FOUND if D.messages[i].size <= 6]


@st.composite
def links(draw, max_bufs=10, min_bufs=1, ids=None, max_msgs=2, sources=1):
    """what is sent and how it arrives. With several sources the buffers come from different layouts of equal length."""
    ids = ids if ids is not None else st.sampled_from(SMALL)
    return {"ids": draw(st.lists(ids, min_size=1, max_size=max_msgs)), "pad": draw(st.sampled_from([0, 0, 1, 2])),
            "parity": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 2 ** 16)),
            "bufs": draw(st.lists(buffers(), min_size=min_bufs, max_size=max_bufs))}


class Link:
    def __init__(self, case):
        self.case = case
        self.msg_bytes = sum(D.messages[i].size + 8 for i in case["ids"])
        self.k = 8 * (self.msg_bytes + case["pad"])
        self.n = self.k + case["parity"]

    def sent(self, b):
        rs = np.random.RandomState(self.case["seed"] + 101 * b["source"])
        data = b""
        order = self.case["ids"] if not b["source"] else self.case["ids"][::-1]
        for i in order:
            m = D.messages[i]
            payload = bytearray(rs.randint(0, 256, m.size, dtype=np.uint8).tobytes())
            if b["variant"] and m.size:
                payload[(b["variant"] * 5) % m.size] ^= b["variant"]
            data += m.frame(bytes(payload), b["seq"], 1, 1)
        data += bytes(rs.randint(0, 256, self.case["pad"], dtype=np.uint8).tobytes())
        bits = np.unpackbits(np.frombuffer(data, dtype=np.uint8)).astype(np.int_)
        return np.concatenate((bits, rs.randint(0, 2, self.case["parity"]))).astype(np.int_)

    def channel(self, b):
        """(sent bits, received llr)"""
        rs = np.random.RandomState(b["seed"])
        sent = self.sent(b)
        got = sent ^ (rs.random_sample(self.n) < b["rate"])
        mag = np.full(self.n, 2.5) if b["mag"] == "bsc" else np.round(rs.uniform(0.05, 6, self.n), 6)
        return sent, (1 - 2 * got) * mag

    def answers(self, b, sent, llr):
        rs = np.random.RandomState(b["seed"] + 1)
        out = []
        for ok, kind in ((b["ok1"], b["e1"]), (b["ok2"], b["e2"])):
            est = {"sent": sent, "hard": (llr < 0).astype(np.int_), "damaged": sent}[kind].copy()
            if kind == "damaged":
                for i in rs.randint(0, self.k, 3):
                    est[i] ^= 1
            out.append({"est": est, "llr": np.round((1 - 2 * est) * rs.uniform(0.5, 9, self.n), 6), "ok": ok,
                        "iter": int(rs.choice([0, 0, 1, rs.randint(2, 20)])), "syn": np.full(2, int(not ok), dtype=np.int_),
                        "val": rs.randint(0, 3, self.n)})
        return out


def unroll(case):
    """a long history from a short one: the buffers again and again, each time with other noise and now and then another content
    or outcome"""
    rnd = random.Random(case["mix"])
    bufs = case["link"]["bufs"]
    out = []
    for i in range(case["words"]):
        b = dict(bufs[i % len(bufs)], seed=rnd.randrange(2 ** 16))
        if rnd.random() < 0.3:
            b.update(variant=rnd.randrange(4), ok1=rnd.random() < 0.5, ok2=rnd.random() < 0.5, e1=rnd.choice(KINDS), e2=rnd.choice(KINDS))
        out.append(b)
    return dict(case, link=dict(case["link"], bufs=out))


@st.composite
def long(draw, cases, **override):
    """strategy for unroll"""
    case = draw(cases)
    case.update({"words": draw(st.one_of(*[st.integers(20, 90)] * 7, st.sampled_from([140, 270]))), "mix": draw(st.integers(0, 2 ** 16))})
    for key, values in override.items():
        if key in case:
            case[key] = draw(st.sampled_from(values))
    return case


def count_messages(bits):
    """(number of messages, whether they cover every byte) in bits packed into bytes"""
    data = np.packbits(np.asarray(bits, dtype=np.uint8)).tobytes()
    found = D.segment(data)
    return len(found), sum(end - start for start, _, end in found) == len(data)
