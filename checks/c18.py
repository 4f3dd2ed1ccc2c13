"""C18: the combined decoders apply the field model and the bit model of a word's class, each to its own bits, exactly once"""
import numpy as np
from hypothesis import strategies as st
from vlib import bitref, mavrect, stub
from vlib.core import Sub, check
from checks import c17
from checks.c15 import close, same
from checks.c16 import Labels
from decoders import CombinedDecoder, CombinedUnifiedDecoder

ASSUMPTIONS = c17.ASSUMPTIONS[:2] + ["labels are compared with a buffer classifier of its own, see C11"]


@st.composite
def cases(draw, unified):
    case = draw(c17.cases())
    case.update({"thr": draw(bitref.thresholds()), "clip": draw(st.sampled_from([0.7, 1, 2, 5])),
                 "bitflip": draw(st.sampled_from([0, 0, 0.0137, 0.0823]))})
    if unified:
        case["flip"] = draw(st.booleans())
    return case


def low_entropy(model, case):
    low = model.structural(case["thr"])
    if low is None:
        raise mavrect.Ambiguous()
    return low


def run(case, info, unified):
    link = stub.Link(case["link"])
    stb = stub.LogSpa(link.n, link.k)
    model, ref, structures = c17.prepare(case, link)
    learning = model is None
    m = case["model"]
    args = (stb, m, case["vthr"], case["ithr"], case["clusters"], case["vf"], case["inf"], case["thr"], case["clip"],
            case["train"], bool(case["cluster"]), case["window"], model, case["center"], case["slope"], case["debug"],
            case["bitflip"])
    dec = CombinedUnifiedDecoder(*args, flip=case["flip"]) if unified else CombinedDecoder(*args)
    if "preset" in case:
        dec.set_buffer_structures([dict(s) for s in structures])
    bits = [bitref.BitModel(case["window"], case["bitflip"]) for _ in structures]
    labels = Labels(case)
    for t, b in enumerate(case["link"]["bufs"]):
        sent, llr = link.channel(b)
        hard = (llr < 0).astype(np.int_)
        errors = np.flatnonzero(sent != hard)
        stb.script(llr, *link.answers(b, sent, llr))
        keep = llr.copy()
        label = labels.next(hard[:m])
        want = llr.copy()
        sure = True
        try:
            if label >= 0 and structures[label] is not None:
                s = mavrect.FieldStates(ref, structures[label], hard)
                w = len(s.p)
                vf, inf = mavrect.factors(case, ref.size, learning)
                good_bits, _ = s.above(1 - case["vthr"])
                bad_bits, _ = s.below(case["ithr"])
                if unified:
                    if bits[label].size > case["center"]:
                        low = low_entropy(bits[label], case)
                        p1 = bits[label].p1
                        if np.any(np.abs(p1[low] - 0.5) < 1e-9):
                            raise mavrect.Ambiguous()
                        good_bits = good_bits[:m] & low
                        bad_bits = bad_bits[:m] & low & ((p1 > 0.5) != hard[:m].astype(bool))
                        want[:m][good_bits] *= vf
                        want[:m][bad_bits] *= -inf if case["flip"] else inf
                        info.label(*(["good"] if good_bits.any() else []), *(["bad"] if bad_bits.any() else []))
                    forced = np.flatnonzero(s.constant & (s.p == 0) if learning else s.constant)
                else:
                    want[:w][good_bits] *= vf
                    want[:w][bad_bits] *= inf
                    forced = np.flatnonzero((s.p == 0) & s.constant)
                want[forced] = (1 - 2 * s.mean[forced]) * np.abs(llr).max() * max(vf, 1)
                found = mavrect.promote(llr, want, link.k, vf)
                info.label(*(["forced"] if forced.size else []), *(["segmented"] if found.any() else []))
                info.mark()
            if label >= 0 and bits[label].size:
                low = low_entropy(bits[label], case)
                conf = bitref.confidence(bits[label].size, case["center"], case["slope"])
                lim = case["clip"] * np.abs(llr).max()
                idx = np.flatnonzero(low)
                if conf > 0:
                    want[idx] += np.clip(conf * bits[label].llr(), -lim, lim)[idx]
                if idx.size and conf > 0:
                    info.label("bit model used")
        except mavrect.Ambiguous:
            sure = False
            info.label("rounding decides")
        res = dec.decode_buffer(llr, errors)
        check(same(llr, keep), "the received word was modified")
        check(int(res[4]) == label, "word %d: label %s, expected %d", t, res[4], label)
        check(len(stb.inputs) == 1, "word %d was decoded %d times", t, len(stb.inputs))
        check(not sure or close(stb.inputs[-1], want), "word %d: the channel decoder was given %s, expected %s", t,
              stb.inputs[-1], want)
        a = stb.answer
        check(same(res[0], a["est"]) and same(res[1], a["llr"]), "word %d: not the channel decoder's answer", t)
        check(bool(res[2]) == a["ok"] and int(res[3]) == a["iter"], "word %d: success and iterations (%s, %s)", t, res[2], res[3])
        if label >= 0:
            if learning:
                c17.learn(case, ref, structures, label, a, hard, link.k)
            bits[label].add((a["est"] if a["ok"] else hard)[:m])


def subs():
    rule = "histories as in C17 with bit models on top; non-trivial when the class of some word had a structure"
    return [Sub("combined", lambda: cases(False), lambda c, i: run(c, i, False), rule, 3600, 40000),
            Sub("unified", lambda: cases(True), lambda c, i: run(c, i, True), rule, 3600, 40000),
            Sub("long-combined", lambda: c17.long_cases(cases(False)), lambda c, i: run(stub.unroll(c), i, False),
                "as combined, 20 to 270 words; same rule", 80, 1600),
            Sub("long-unified", lambda: c17.long_cases(cases(True)), lambda c, i: run(stub.unroll(c), i, True),
                "as unified, 20 to 270 words; same rule", 80, 1600)]
