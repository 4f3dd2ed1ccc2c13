"""C14: the entropy aided MLE denoiser adds the model's log likelihood ratio to low entropy bits only"""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import bitref
from vlib.core import Sub, check
from inference import EMLE

ASSUMPTIONS = ["0 < f < 0.5", "an estimate within 1e-7 of zero may be decided either way"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    base = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    hard_in = draw(st.booleans())
    bufs = []
    for _ in range(draw(st.integers(1, 14))):
        b = [x ^ draw(st.sampled_from([0, 0, 0, 1])) for x in base]
        if hard_in:
            bufs.append(b)
        else:
            mags = draw(st.lists(st.floats(0.05, 6), min_size=n, max_size=n))
            bufs.append([round(m, 6) * (1 - 2 * x) for m, x in zip(mags, b)])
    return {"f": draw(st.sampled_from([0.0137, 0.0823, 0.1931, 0.3571])), "thr": draw(bitref.thresholds(0.1)),
            "window": draw(st.sampled_from([0, 0, 1, 2, 3, 5])), "center": draw(st.integers(0, 8)),
            "slope": draw(st.sampled_from([0.35, 1.0, 0.1, 3.0])), "hard": draw(st.booleans()), "soft_input": not hard_in,
            "bufs": bufs, "reset": draw(st.one_of(st.none(), st.integers(0, 10))), "bulk": draw(st.booleans())}


def run(case, info):
    f = case["f"]
    d = EMLE(f, threshold=case["thr"], window_length=case["window"], conf_center=case["center"], conf_slope=case["slope"],
             hard_decision=case["hard"], soft_input=case["soft_input"])
    model = bitref.BitModel(case["window"] or None, f)
    bufs = [np.array(b, dtype=float if case["soft_input"] else np.int_) for b in case["bufs"]]
    outs = []
    if case["bulk"]:
        seq = np.array(bufs)
        keep = seq.copy()
        est, costs = d.denoise_sequence(seq)
        check(np.array_equal(seq, keep), "the buffers were modified")
        check(len(est) == len(costs) == len(bufs), "%d estimates of %d buffers", len(est), len(bufs))
        outs = list(zip(est, costs))
    used = 0
    for t, b in enumerate(bufs):
        if not case["bulk"]:
            if case["reset"] == t:
                d.reset()
                model = bitref.BitModel(case["window"] or None, f)
                info.label("reset")
            keep = b.copy()
            outs.append(d.denoise_buffer(b))
            check(np.array_equal(b, keep), "the buffer was modified")
        llr = b.astype(float) if case["soft_input"] else (1.0 - 2 * b) * math.log((1 - f) / f)
        hard = (llr < 0).astype(int)
        conf = bitref.confidence(model.size, case["center"], case["slope"])
        if model.size:
            low = model.structural(case["thr"])
            if low is None:
                info.label("entropy at the threshold")
                return
            if conf > 0:
                llr = llr + np.where(low, conf * model.llr(), 0.0)
                used += int(low.any())
        model.add(hard)
        est, cost = outs[t]
        check(np.shape(est) == np.shape(llr), "shape %s", np.shape(est))
        sure = np.abs(llr) > 1e-7
        bits = (llr < 0).astype(int)
        if case["hard"]:
            check(np.array_equal(np.asarray(est)[sure], bits[sure]), "buffer %d: bits %s, expected %s", t, np.asarray(est), bits)
        else:
            check(np.allclose(est, llr, rtol=1e-9, atol=1e-9), "buffer %d: llr %s, expected %s", t, est, llr)
        if sure.all():
            check(int(cost) == int(np.sum(bits != hard)), "buffer %d: cost %s, expected %d", t, cost, int(np.sum(bits != hard)))
            if np.any(bits != hard):
                info.label("corrected")
    info.label("hard" if case["hard"] else "soft", "soft input" if case["soft_input"] else "hard input",
               "window" if case["window"] else "no window")
    info.mark(used > 0)


@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([4, 16, 64, 300, 600]))
    return {"n": n, "t": draw(st.integers(20, 150 if n < 100 else 50)), "burst": draw(st.sampled_from([0, 0, 9, 14])), "mix": draw(st.integers(0, 2 ** 16)), "noise": draw(st.sampled_from([0.02, 0.1, 0.3])),
            "f": draw(st.sampled_from([0.0137, 0.0823, 0.1931, 0.3571])), "thr": draw(bitref.thresholds(0.1)),
            "window": draw(st.sampled_from([0, 7, 20, 50, 100])), "center": draw(st.sampled_from([0, 10, 40])),
            "slope": draw(st.sampled_from([0.35, 1.0, 0.1, 3.0])), "hard": draw(st.booleans()), "soft_input": draw(st.booleans()),
            "reset": draw(st.one_of(st.none(), st.integers(10, 60))), "bulk": draw(st.booleans())}


def run_long(case, info):
    rs = np.random.RandomState(case["mix"])
    bits = rs.randint(0, 2, case["n"])[None, :] ^ (rs.random_sample((case["t"], case["n"])) < case["noise"] * rs.random_sample(case["n"]))
    if case["burst"]:  # now and then every bit is wrong
        bits ^= (np.arange(case["t"]) % case["burst"] == case["burst"] - 1)[:, None]
    if case["mix"] % 3 == 0:  # the content changes half way
        bits[case["t"] // 2:] = bits[case["t"] // 2:, ::-1]
    bufs = (np.round(rs.uniform(0.05, 6, bits.shape), 6) * (1 - 2 * bits)) if case["soft_input"] else bits.astype(int)
    run(dict(case, bufs=bufs.tolist()), info)


def subs():
    return [Sub("long", long_cases, run_long, "as history, 20 to 150 buffers of up to 600 bits, whole buffers wrong now and then, windows up to 100", 160, 3200),
            Sub("history", cases, run, "histories of noisy copies of a buffer, denoised one at a time (with a reset) or in bulk; "
                "non-trivial when the model changed some buffer", 3000)]
