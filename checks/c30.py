"""C30: the comparison of bit flipping decoders sends, decodes and reports what it was asked to"""
from hypothesis import strategies as st
from vlib.core import Exhaustive, Sub
from checks.c27 import ASSUMPTIONS, run  # noqa: F401


@st.composite
def cases(draw):
    lo, hi = sorted(draw(st.tuples(*[st.sampled_from([4.0, 5.0, 6.0, 6.5, 7.0])] * 2)))
    a = {"N": draw(st.integers(1, 4)), "minflip": lo, "maxflip": hi, "nflips": draw(st.integers(1, 3)),
         "ldpciterations": draw(st.sampled_from([1, 2, 5, 20, 40])), "ent_threshold": draw(st.sampled_from([0.36, 0.05, 0.8])),
         "window_len": draw(st.sampled_from([0, 1, 2, 50])), "multiply_data": draw(st.sampled_from([0, 0, 1])),
         "processes": draw(st.integers(1, 3)), "conf_center": draw(st.sampled_from([0, 1, 3, 40])),
         "conf_slope": draw(st.sampled_from([0.35, 1.0, 0.1])), "model_length": draw(st.sampled_from(["info", "all"]))}
    return {"script": "bf", "args": a, "offset": draw(st.integers(0, 100)), "seed": draw(st.integers(0, 2 ** 16)), "again": 0}


def grid():
    out = []
    for t in range(6):
        a = {"N": 3 if t != 3 else 2, "minflip": 3.0 + t, "maxflip": 7.0, "nflips": 1 if t == 4 else 2, "ldpciterations": [2, 25, 8][t % 3],
             "ent_threshold": [0.8, 0.36][t % 2], "window_len": [0, 1, 2][t % 3], "multiply_data": int(t == 3), "processes": [1, 1, 2][t % 3],
             "conf_center": [1, 0][t % 2], "conf_slope": [1.0, 0.35][t // 2 % 2], "model_length": ["all", "info"][t // 2 % 2]}
        a["minflip"] = min(a["minflip"], 6.5)
        out.append({"script": "bf", "args": a, "offset": 9 * t, "seed": t, "again": int(t == 1)})
    return out


def clean():
    """hardly any noise: words of no or a few errors, which need none, some or just all of the iterations"""
    return [{"script": "bf", "args": {"N": 12, "minflip": [7.5, 8.0][t % 2], "maxflip": 8.5, "nflips": 2, "ldpciterations": [3, 1, 2][t % 3],
                                      "ent_threshold": 0.36, "window_len": [0, 3][t % 2], "multiply_data": 0, "processes": 2, "conf_center": [40, 40, 2][t % 3],
                                      "conf_slope": 0.35, "model_length": ["info", "all"][t % 2]},
             "offset": 13 * t, "seed": 50 + t, "again": 0} for t in range(6)]


def subs():
    return [Exhaustive("grid", grid, run, "runs with settings which take turns; all have several words", spread=True, patience=3),
            Exhaustive("clean", clean, run, "runs with hardly any noise; all have several words", spread=True, patience=3),
            Sub("runs", cases, run, "runs with generated arguments; non-trivial with more than one word", 8, 400, patience=3)]
