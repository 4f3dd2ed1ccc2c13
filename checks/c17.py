"""C17: the MAVLink decoder scales, forces and doubles exactly the bits its field model and segmentation call for"""
import numpy as np
from hypothesis import strategies as st
from vlib import gens, mavrect, stub
from vlib.core import Sub, check
from checks import c08
from checks.c15 import WINDOWS, close, same
from checks.c16 import Labels
from decoders import MavlinkRectifyingDecoder
from inference import BufferModel

ASSUMPTIONS = ["the LDPC decoder is scripted; information bits come first in a codeword and make up whole bytes",
               "words for which floating point rounding decides (see C07, and thresholds within 1e-6 of a probability) are not compared",
               "labels are compared with a buffer classifier of its own, see C11; several segmentation iterations with a given model only",
               "debug figures are claimed for words whose class had a structure before; those about flipped bits for given models"]

MID = [i for i in gens.FOUND if gens.DIALECT.messages[i].size <= 32]


@st.composite
def cases(draw, combined=False):
    link = draw(stub.links(max_bufs=10, min_bufs=2, ids=st.one_of(st.sampled_from(stub.SMALL), st.sampled_from(MID))))
    k = 8 * (sum(stub.D.messages[i].size + 8 for i in link["ids"]) + link["pad"])
    n = k + link["parity"]
    case = {"link": link, "model": draw(st.sampled_from([k, k, k // 2, 8, 5, 8 * (n // 8), k - 1])),
            "window": draw(st.sampled_from([None, None, 1, 2, 3, 5])), "train": draw(st.integers(2, 4)),
            "clusters": draw(st.sampled_from([1, 1, 2, 3, 6])), "cluster": draw(st.integers(0, 1)),
            "center": draw(st.integers(0, 5)), "slope": draw(st.sampled_from([0.35, 1.0, 2.0, 0.003])),
            "vthr": draw(st.sampled_from([0.05, 0.2, 0.5, 0.0, 0.9])), "ithr": draw(st.sampled_from([0.01, 0.1, 0.5, 0.0])),
            "vf": draw(st.sampled_from([1.0, 1.5, 2.5, 5.0, 0.8])), "inf": draw(st.sampled_from([0.9, 0.5, 0.1, -0.6])),
            "debug": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        case["given"] = draw(st.lists(stub.buffers(), min_size=1, max_size=4))
        case["rounds"] = draw(st.sampled_from([1, 1, 2, 3]))
    if "given" in case or draw(st.integers(0, 2)) == 0:
        case["preset"] = draw(st.sampled_from(["layout", "layout", "part"]))
    return case


def layout_of(case, source=0, part=False):
    ids = case["link"]["ids"] if not source else case["link"]["ids"][::-1]
    out, pos = {}, 0
    for i in ids:
        out[pos] = i
        pos += stub.D.messages[i].size + 8
    if part:
        out.pop(max(out))
    return out


def prepare(case, link):
    """(model given to the decoder or None, reference, structures)"""
    ref = c08.Ref(case["window"])
    model = None
    if "given" in case:
        model = BufferModel(window_size=case["window"])
        for b in case["given"]:
            data = mavrect.as_bytes(link.sent(b))
            model.add_buffer(data, layout_of(case))
            ref.add_buffer(data, layout_of(case))
    structures = [None] * case["clusters"]
    if "preset" in case:
        structures = [layout_of(case, part=case["preset"] == "part") for _ in structures]
    return model, ref, structures


def learn(case, ref, structures, label, a, hard, k):
    """what a decoder which learns does after decoding a word of a known class"""
    if a["ok"]:
        if structures[label] is None:
            structures[label] = {start: m.id for start, m, _ in stub.D.segment(mavrect.as_bytes(a["est"][:k]))}
        ref.add_buffer(mavrect.as_bytes(a["est"]), structures[label])
    elif structures[label] is not None:
        ref.add_buffer(mavrect.as_bytes(hard), structures[label])


def check_debug(case, res, states, good, bad, forced, errors, hard, n, learning):
    perf, force = res
    damaged = states.damaged(errors)
    if not damaged:
        check(perf == {}, "classifier analysis %s without damage", perf)
    else:
        total = len(states.spans)
        check(int(perf["n_fields_in_buffer"]) == total and int(perf["n_damaged_fields_in_buffer"]) == len(damaged),
              "%s of %s fields are damaged, expected %d of %d", perf["n_damaged_fields_in_buffer"], perf["n_fields_in_buffer"],
              len(damaged), total)
        want = mavrect.confusion(bad, damaged, total - len(damaged))
        check(same(perf["bad_fields_performance"], want), "bad fields %s, expected %s", perf["bad_fields_performance"], want)
        want = mavrect.confusion(good, set(range(total)) - set(damaged), len(damaged))
        check(same(perf["good_fields_performance"], want), "good fields %s, expected %s", perf["good_fields_performance"], want)
    want = mavrect.confusion(forced, errors, n - len(errors))
    check(same(force["bits_confusion_matrix"], want), "forced bits %s, expected %s", force["bits_confusion_matrix"], want)
    if learning:
        return
    flipped = [i for i in forced if states.mean[i] != hard[i]]
    want = mavrect.confusion(flipped, errors, n - len(errors))
    check(same(force["flipping_confusion_matrix"], want), "flipped bits %s, expected %s", force["flipping_confusion_matrix"], want)
    sent = hard.copy()
    sent[errors] ^= 1
    wrong = sum(1 for i in forced if sent[i] != states.mean[i])
    want = [len(errors), len(forced), len(flipped), want[0], want[1], wrong / len(forced) if forced else 0]
    check(close(force["forcing_quality"], want), "forcing quality %s, expected %s", force["forcing_quality"], want)


def run(case, info):
    link = stub.Link(case["link"])
    stb = stub.LogSpa(link.n, link.k)
    model, ref, structures = prepare(case, link)
    learning = model is None
    dec = MavlinkRectifyingDecoder(stb, case["model"], case["vthr"], case["ithr"], case["clusters"], case["vf"], case["inf"],
                                   case["train"], bool(case["cluster"]), case["window"], model, case["center"], case["slope"],
                                   case["debug"], case.get("rounds", 1))
    if "preset" in case:
        dec.set_buffer_structures([dict(s) for s in structures])
    for bad in (case["clusters"] + 1, case["clusters"] - 1):
        try:
            dec.set_buffer_structures([None] * bad)
            check(False, "%d structures were accepted for %d classes", bad, case["clusters"])
        except ValueError:
            pass
    labels = Labels(case)
    for t, b in enumerate(case["link"]["bufs"]):
        sent, llr = link.channel(b)
        hard = (llr < 0).astype(np.int_)
        errors = np.flatnonzero(sent != hard)
        stb.script(llr, *link.answers(b, sent, llr))
        keep = llr.copy()
        # what is expected, before the decoder learns from the word
        label = labels.next(hard[:case["model"]])
        known = label >= 0 and structures[label] is not None
        obs = llr
        good, bad, segmented, forced, wants, answers = [], [], [], [], [], []
        sure = True
        while True:  # several rounds: what the channel decoder makes of a word is rectified and decoded again until it succeeds
            want = obs.copy()
            if known:
                try:
                    s = mavrect.FieldStates(ref, structures[label], (obs < 0).astype(np.int_))
                    w = len(s.p)
                    vf, inf = mavrect.factors(case, ref.size, learning)
                    good_bits, good = s.above(1 - case["vthr"])
                    bad_bits, bad = s.below(case["ithr"])
                    want[:w][good_bits] *= vf
                    want[:w][bad_bits] *= inf
                    forced = np.flatnonzero((s.p == 0) & s.constant).tolist()
                    want[forced] = (1 - 2 * s.mean[forced]) * np.abs(obs).max() * max(vf, 1)
                    segmented = mavrect.promote(obs, want, link.k, vf)
                    info.label(*(["forced"] if forced else []), *(["good"] if good else []), *(["bad"] if bad else []),
                               *(["segmented"] if segmented.any() else []))
                    info.mark(bool(good or bad or forced))
                except mavrect.Ambiguous:
                    sure = False
                    info.label("rounding decides")
            wants.append(want)
            if len(wants) >= case.get("rounds", 1) or label < 0 or not sure:
                break
            answers.append(stb.preview(want))
            if answers[-1] is None:
                sure = False
                break
            if answers[-1]["ok"]:
                break
            info.label("another round")
            obs = answers[-1]["llr"]
        res = dec.decode_buffer(llr, errors)
        check(same(llr, keep), "the received word was modified")
        check(len(res) == 12, "%d results", len(res))
        check(int(res[6]) == label, "word %d: label %s, expected %d", t, res[6], label)
        if sure:
            check(len(stb.inputs) == len(wants), "word %d was decoded %d times instead of %d", t, len(stb.inputs), len(wants))
            for got, want in zip(stb.inputs, wants):
                check(close(got, want), "word %d: the channel decoder was given %s, expected %s", t, got, want)
        check(1 <= len(stb.inputs) <= case.get("rounds", 1), "word %d was decoded %d times", t, len(stb.inputs))
        check(all(not a["ok"] for a in stb.answers[:-1]), "word %d was decoded again after a success", t)
        a = stb.answer
        check(same(res[0], a["est"]) and same(res[1], a["llr"]), "word %d: not the channel decoder's answer", t)
        check(bool(res[2]) == a["ok"] and int(res[3]) == sum(x["iter"] for x in stb.answers), "word %d: success and iterations (%s, %s)",
              t, res[2], res[3])
        check(same(res[4], a["syn"]) and same(res[5], a["val"]), "word %d: syndrome or validity", t)
        if sure:
            check(same(np.asarray(res[7]).astype(bool), np.asarray(segmented, dtype=bool)), "word %d: segmented bits %s, expected %s", t, res[7], segmented)
            check(list(res[8]) == good and list(res[9]) == bad, "word %d: good and bad fields %s %s, expected %s %s", t, res[8],
                  res[9], good, bad)
        if not case["debug"]:
            check(res[10] == {} and res[11] == {}, "word %d: unexpected analysis", t)
        elif known and sure:
            check_debug(case, res[10:12], s, good, bad, forced, errors, hard, link.n, learning)
            info.label("debug")
        if learning and label >= 0:
            learn(case, ref, structures, label, a, hard, link.k)


def long_cases(base=None):
    return stub.long(base if base is not None else cases(), window=WINDOWS, train=[2, 5, 12, 25], clusters=[1, 1, 2, 3, 5],
                     center=[0, 10, 40])


def subs():
    return [Sub("history", cases, run, "histories of up to 10 words of one or two layouts, one to three classes, learned or given field "
                "models and structures; non-trivial when some bits were scaled or forced", 5000, 60000),
            Sub("long", long_cases, lambda c, i: run(stub.unroll(c), i), "as history, 20 to 270 words; same rule", 120, 2400)]
