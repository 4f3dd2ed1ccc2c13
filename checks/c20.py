"""C20: every decoder, on a real code, answers honestly, is repeatable, leaves its arguments alone, keeps to itself, does no harm
on a steady link, and recovers what its model knows"""
import numpy as np
from hypothesis import strategies as st
from ldpc.decoder import GalBfDecoder, LogSpaDecoder, WbfDecoder, WbfVariant, bsc_llr
from vlib import codes, stub
from vlib.core import Sub, check
from checks.c15 import same
from checks.c17 import layout_of
from decoders import (ClassifyingDudeDecoder, ClassifyingEntropyDecoder, CombinedDecoder, CombinedUnifiedDecoder, Decoder,
                      MavlinkRectifyingDecoder)
from decoders.entropy_bitwise_decoder import (EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder,
                                              EntropyBitwiseWeightedDecoder)
from decoders.turbo import TurboDecoder
from decoders.decoder import DecoderType

ASSUMPTIONS = ["codes are small, systematic and random (80 to 250 information bits); belief propagation, min-sum, weighted and "
               "Gallager bit flipping as provided by the ldpc package",
               "decoders which are random by design (tie breaking in weighted bit flipping) are not required to be repeatable"]

KINDS = ["llr", "flip", "weighted", "bayes", "classify", "classify-gal", "classify-wbf", "dude", "mavlink", "combined", "unified",
         "turbo"]

TYPES = {"classify": "CLASSIFYING", "dude": "DUDE", "mavlink": "MAVLINK", "combined": "COMBINED", "unified": "COMBINED",
         "turbo": "TURBO"}


def build(kind, case, h, k):
    n = h.shape[1]
    info = np.arange(n) < k
    c, s, w, cl, m = case["center"], case["slope"], case["window"], case["clusters"], case["model"]
    spa = None
    if kind not in ("flip", "classify-gal", "classify-wbf"):
        spa = LogSpaDecoder(h, 8, info, decoder_type=case["bp"])
    if kind == "llr":
        return EntropyBitwiseDecoder(spa, m, 0.36, 3, 3, w)
    if kind == "flip":
        return EntropyBitwiseFlippingDecoder(LogSpaDecoder(h, 8, info, channel_model=bsc_llr(0.05), decoder_type=case["bp"]),
                                             m, 0.36, 3, w)
    if kind in ("weighted", "bayes"):
        return EntropyBitwiseWeightedDecoder(spa, m, 0.36, 3, 50 if kind == "bayes" else w, c, s, c, s, case["scheme"],
                                             "Bayes" if kind == "bayes" else "MLE", 0.01, True)
    if kind == "classify":
        return ClassifyingEntropyDecoder(spa, m, 0.36, 3, 3, cl, w, c, s, 0.01)
    if kind == "classify-gal":
        return ClassifyingEntropyDecoder(GalBfDecoder(h, 30, info), m, 0.36, 3, 3, cl, w, c, s, 0.01,
                                         reliability_method=case["method"])
    if kind == "classify-wbf":
        return ClassifyingEntropyDecoder(WbfDecoder(h, 15, WbfVariant.WBF, info), m, 0.36, 3, 3, cl, w, c, s, 0.01)
    if kind == "dude":
        return ClassifyingDudeDecoder(spa, m, 3, 3, cl, 2, c, s, 0.01)
    args = (spa, m, 0.05, 0.01, cl, 2.0, 0.5)
    if kind == "mavlink":
        return MavlinkRectifyingDecoder(*args, 3, True, w, None, c, s)
    if kind == "combined":
        return CombinedDecoder(*args, 0.36, 3, 3, True, w, None, c, s, False, 0.01)
    if kind == "unified":
        return CombinedUnifiedDecoder(*args, 0.36, 3, 3, True, w, None, c, s, False, 0.01, case["method"] == 3)
    if kind == "turbo":
        return TurboDecoder(build(case["inner"], case, h, k), LogSpaDecoder(h, 5, info, decoder_type=case["bp"]), 2)
    raise KeyError(kind)


def decode(dec, kind, llr, errors):
    if kind in ("mavlink", "combined", "unified", "turbo"):
        return dec.decode_buffer(llr, errors)
    return dec.decode_buffer(llr)


@st.composite
def cases(draw, kinds=tuple(KINDS), min_bufs=1, max_bufs=6):
    kind = draw(st.sampled_from(kinds))
    link = draw(stub.links(max_bufs=max_bufs, min_bufs=min_bufs, max_msgs=1))
    k = 8 * (sum(stub.D.messages[i].size + 8 for i in link["ids"]) + link["pad"])
    return {"kind": kind, "link": link, "code": draw(st.integers(0, 20)), "rate": draw(st.sampled_from([0.5, 0.7])),
            "bp": draw(st.sampled_from(["BP", "MS"])), "center": draw(st.integers(0, 4)), "slope": draw(st.sampled_from([0.5, 2.0])),
            "window": draw(st.sampled_from([None, 3, 20])), "clusters": draw(st.sampled_from([1, 1, 2])),
            "scheme": draw(st.integers(0, 5)), "method": draw(st.sampled_from([0, 3])),
            "model": draw(st.sampled_from([k, k, k // 2])),
            "inner": draw(st.sampled_from(["llr", "weighted", "classify", "dude", "unified"]))}


class Real:
    def __init__(self, case):
        self.case = case
        self.link = stub.Link(case["link"])
        self.k = self.link.k
        r = 8 * max(3, int(self.k * (1 - case["rate"]) / 8 / case["rate"]))
        self.h = codes.parity_matrix(self.k, r, case["code"])
        self.n = self.k + r

    def word(self, b, errors=None):
        rs = np.random.RandomState(b["seed"])
        sent = codes.encode(self.h, self.link.sent(b)[:self.k])
        got = sent ^ (rs.random_sample(self.n) < b["rate"])
        mag = np.full(self.n, 2.5) if b["mag"] == "bsc" else np.round(rs.uniform(0.5, 6, self.n), 6)
        llr = (1 - 2 * got) * mag
        if self.case["kind"] == "flip":
            return sent, got
        return sent, llr

    def errors(self, sent, word):
        hard = word if self.case["kind"] == "flip" else word < 0
        return np.flatnonzero(sent != hard)


def arrays(res):
    return [np.array(x) for x in res if isinstance(x, np.ndarray)]


def honest(case, real, res, sent, word, t):
    est, llr, ok = res[:3]
    est = np.asarray(est)
    check(est.shape == (real.n,) and np.all((est == 0) | (est == 1)), "word %d: the estimate isn't a word of bits", t)
    syndrome = real.h @ est.astype(int) % 2
    if bool(ok) or case["kind"] not in ("classify-gal", "classify-wbf"):  # bit flipping may end on a codeword without noticing
        check(bool(ok) == (not syndrome.any()), "word %d: success is %s, the estimate %s a codeword", t, ok,
              "isn't" if syndrome.any() else "is")
    if np.size(llr):
        llr = np.asarray(llr)
        check(llr.shape == (real.n,), "word %d: %s soft values", t, llr.shape)
        check(same((llr < 0).astype(int), est.astype(int)), "word %d: soft and hard values disagree", t)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    return a == b


def run_contract(case, info):
    np.random.seed(case["code"])  # weighted bit flipping breaks ties at random
    real = Real(case)
    kind = case["kind"]
    words = [real.word(b) for b in case["link"]["bufs"]]
    dec = build(kind, case, real.h, real.k)
    check(isinstance(dec, Decoder), "not a decoder")
    want = TYPES.get(kind.split("-")[0], "ENTROPY")
    check(dec.decoder_type is DecoderType[want], "the decoder says it is %s", dec.decoder_type)
    first, held = [], []
    for t, (sent, word) in enumerate(words):
        keep, errors = word.copy(), real.errors(sent, word)
        keep_errors = errors.copy()
        res = decode(dec, kind, word, errors)
        check(same(word, keep) and same(errors, keep_errors), "word %d: the caller's array was modified", t)
        honest(case, real, res, sent, word, t)
        held.append((res, arrays(res)))
        first.append(res)
        info.label("success" if bool(res[2]) else "failure")
        if bool(res[2]) and len(errors) and same(res[0], sent):
            info.label("corrected")
    for t, (res, before) in enumerate(held):
        check(all(same(np.nan_to_num(x), np.nan_to_num(y)) for x, y in zip(arrays(res), before)),
              "the result of word %d changed when later words were decoded", t)
    info.label(kind)
    info.mark(len(words) > 1)
    if kind == "classify-wbf":
        return
    # again, in turns with another decoder which sees the words in another order
    a, b = build(kind, case, real.h, real.k), build(kind, case, real.h, real.k)
    for t, (sent, word) in enumerate(words):
        osent, oword = words[-1 - t]
        decode(b, kind, oword, real.errors(osent, oword))
        res = decode(a, kind, word, real.errors(sent, word))
        check(equal(res, first[t]), "word %d: another decoder with the same history answered differently", t)


def run_steady(case, info):
    """the same content again and again, every word of another strength, none of them damaged"""
    real = Real(case)
    dec = build(case["kind"], case, real.h, real.k)
    for t, b in enumerate(case["link"]["bufs"]):
        sent, word = real.word(dict(b, rate=0, variant=0, seq=0, source=0))
        res = decode(dec, case["kind"], word, np.array([], dtype=np.int_))
        check(bool(res[2]) and same(np.asarray(res[0]).astype(int), sent), "word %d arrived undamaged and was not decoded", t)
    info.label(case["kind"])
    info.mark(len(case["link"]["bufs"]) > 3)


def run_long(case, info):
    case = stub.unroll(dict(case, words=min(case["words"], 24 if case["kind"] == "turbo" else 60)))
    if case["mix"] % 2:
        run_contract(case, info)
    else:
        run_steady(case, info)


RECOVER = ["llr", "flip", "weighted", "bayes", "classify", "classify-gal", "mavlink", "combined", "unified"]


@st.composite
def recover_cases(draw):
    case = draw(cases(tuple(RECOVER), max_bufs=1))
    case.update({"clean": draw(st.integers(8, 12)), "clusters": 1, "center": draw(st.integers(0, 3)), "slope": 2.0, "method": 3,
                 "scheme": draw(st.sampled_from([0, 3, 5])), "window": draw(st.sampled_from([None, 5, 8])),
                 "damage": draw(st.sampled_from([0.05, 0.2, 0.4, 1.0])),
                 "seed": draw(st.integers(0, 2 ** 16))})
    k = 8 * (sum(stub.D.messages[i].size + 8 for i in case["link"]["ids"]) + case["link"]["pad"])
    case["link"]["pad"] = 0
    k = 8 * sum(stub.D.messages[i].size + 8 for i in case["link"]["ids"])
    case["model"] = k
    return case


def run_recover(case, info):
    """a word whose known bits are damaged, after undamaged words of the same content"""
    real = Real(case)
    kind = case["kind"]
    dec = build(kind, case, real.h, real.k)
    b = dict(case["link"]["bufs"][0], rate=0, variant=0, seq=0, source=0)
    for t in range(case["clean"]):
        sent, word = real.word(dict(b, seed=b["seed"] + t))
        res = decode(dec, kind, word, np.array([], dtype=np.int_))
    sent, word = real.word(dict(b, seed=b["seed"] + 77))
    rs = np.random.RandomState(case["seed"])
    hit = rs.random_sample(real.n) < case["damage"]
    hit[real.k:] = False
    if kind in ("mavlink",):
        hit[real.k - 16:] = False  # the checksum is not a field
    word = word.copy()
    if kind == "flip":
        word[hit] ^= True
    else:
        word[hit] *= -1
    if kind == "flip":
        word = word.astype(np.int_)
    if kind in ("llr", "flip", "weighted", "bayes"):
        # these trust the code first: it may take the damaged word for another codeword
        plain = LogSpaDecoder(real.h, 8, np.arange(real.n) < real.k, decoder_type=case["bp"],
                              channel_model=bsc_llr(0.05) if kind == "flip" else None).decode(word)
        if plain[2] and not same(plain[0], sent):
            info.label("misled by the code")
            return
    res = decode(dec, kind, word, np.flatnonzero(hit))
    check(bool(res[2]) and same(np.asarray(res[0]).astype(int), sent),
          "%d known bits were damaged after %d undamaged words and the word was not recovered", int(hit.sum()), case["clean"])
    info.label(kind)
    info.mark(bool(hit.any()))


def subs():
    return [
        Sub("contract", cases, run_contract, "histories of up to 6 noisy words through each of 12 decoders; non-trivial with at least two "
            "words", 400, 8000),
        Sub("steady", lambda: cases(min_bufs=4, max_bufs=10), run_steady, "up to 10 undamaged words of the same content; non-trivial with at "
            "least four", 200, 4000),
        Sub("long", lambda: stub.long(cases()), run_long, "as contract and steady, 20 to 60 words (turbo decoders: up to 24)", 24, 400),
        Sub("recover", recover_cases, run_recover, "8 to 12 undamaged words, then one with 5 to 100 % of its known bits damaged; "
            "non-trivial when a bit was damaged", 240, 4000),
    ]
