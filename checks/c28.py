"""C28: runs on recorded transmissions decode every word as asked and report figures which follow from the words"""
import glob
import json
import lzma
import math
import os
import pickle
import shlex
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat
from scipy.sparse import csr_matrix
from ldpc.decoder import LogSpaDecoder, bsc_llr
from ldpc.utils import AList
from vlib.core import Exhaustive, REPO, Sub, check
from checks.c15 import same
from checks.c27 import launch, recording, rest, understood
from decoders import ClassifyingEntropyDecoder, CombinedUnifiedDecoder, MavlinkRectifyingDecoder
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta

ASSUMPTIONS = ["the recordings of the sea trials are not in the repository: they are generated, as words of the code used in the trials "
               "which carry recorded telemetry, with Gaussian noise",
               "runs are whole runs of the scripts as they are, in a scratch directory",
               "the repetition of decoding uses this tree's decoders: what these do is the subject of other properties"]
K, N = 984, 4098
RUNS = os.path.join(REPO, "runs")
# script, table, names of its success rate and bit error rate
SCRIPTS = {"entropy22": ("Feb_2022/experimental_data_run.py", "entropy", "entropy_buffer_success_rate", "entropy_decoder_ber"),
           "mavlink22": ("Feb_2022/experimental_mavlink_based.py", "rect", "mavlink_buffer_success_rate", "rectify_decoder_ber"),
           "unified22": ("Feb_2022/experimental_data_unified_decoder.py", "nr", "nr_buffer_success_rate", "nr_decoder_ber"),
           "entropy23": ("Feb_2023/experimental_data_run_feb_23.py", "entropy", "entropy_buffer_success_rate", "entropy_decoder_ber"),
           "mavlink23": ("Feb_2023/experimental_mavlink_based.py", "rect", "mavlink_buffer_success_rate", "rectify_decoder_ber"),
           "unified23": ("Feb_2023/experimental_data_unified_decoder.py", "nr", "nr_buffer_success_rate", "nr_decoder_ber"),
           "code22": ("Feb_2022/simulation_rafael_code.py", "entropy", "entropy_buffer_success_rate", "entropy_decoder_ber")}
ALIST = os.path.join(RUNS, "Feb_2022", "spec", "4098_3095_non_sys_h.alist")
_cache = {}


def code():
    if "code" not in _cache:
        h = AList.from_file(ALIST)
        system = loadmat(os.path.join(RUNS, "Feb_2022", "spec", "4098.mat"))["H"]
        _cache["code"] = (h, csr_matrix(h.to_sparse()).astype(int), np.asarray(system[:, :N - 3095].todense(), dtype=int))
    return _cache["code"]


def word(i, rng, strange=False):
    """word of the code which carries the telemetry of recording i: four of its five messages, as in the trials; or something else"""
    b = recording()["50000"][i]
    bits = np.unpackbits(np.frombuffer(b[:72] + b[108:153] + bytes(rng.integers(0, 256, 6, dtype=np.uint8)), dtype=np.uint8))
    if strange:
        bits = bits ^ (rng.random(len(bits)) < 0.5)
    x = np.concatenate([bits, rng.integers(0, 2, 1003 - K)])
    return np.concatenate([x, code()[2] @ x % 2]).astype(np.uint8)


def data(case):
    """per date: (words sent, with 2 for the unidentified, values received)"""
    rng = np.random.default_rng(case["seed"])
    out = {}
    i = case["offset"]
    for date, rows in case["rows"].items():
        tx, rx = [], []
        for sigma, known, *strange in rows:
            w = word(i, rng, strange and strange[0])
            i += 1
            y = (1 - 2.0 * w) + sigma * rng.normal(size=N)
            y[rng.integers(0, N, case.get("erased", 0))] = 0
            rx.append(2 * y / sigma ** 2)
            tx.append(w if known else np.full(N, 2, dtype=np.uint8))
        out[date] = (np.array(tx), np.array(rx))
    return out


@st.composite
def cases(draw, scripts=tuple(SCRIPTS)):
    script = draw(st.sampled_from(scripts))
    a = {"ldpciterations": draw(st.integers(1, 4)), "dec_type": draw(st.sampled_from(["BP", "MS"])),
         "window_len": draw(st.sampled_from([50, 0, 1, 2])), "conf_center": draw(st.sampled_from([1, 0, 2, 40])),
         "conf_slope": draw(st.sampled_from([0.35, 1.0, 2.0]))}
    if script[:-2] in ("entropy", "unified", "code"):
        a.update(ent_threshold=draw(st.sampled_from([0.36, 0.05, 0.8])), clipping_factor=draw(st.integers(1, 3)))
    if script[:-2] in ("entropy", "code"):
        a["model_length"] = draw(st.sampled_from(["all", "info"]))
    if script[:-2] in ("mavlink", "unified"):
        a.update(valid_factor=draw(st.sampled_from([2.0, 1.5])), invalid_factor=draw(st.sampled_from([0.7, 0.2])),
                 valid_threshold=draw(st.sampled_from([0.03, 0.5])), invalid_threshold=draw(st.sampled_from([0.08, 0.4])))
    if script[:-2] == "mavlink":
        a["segiterations"] = draw(st.integers(1, 2))
    if script[:-2] == "unified":
        a.update(learn=draw(st.integers(0, 1)), flip=draw(st.integers(0, 1)))
    if script == "code22":
        lo, hi = sorted(draw(st.tuples(*[st.sampled_from([0.1, 0.01, 0.05, 0.14])] * 2)))
        n = draw(st.integers(2, 4))
        a.update(minflip=lo, maxflip=hi, nflips=draw(st.integers(1, 2)), processes=draw(st.integers(1, 2)),
                 multiply_data=draw(st.sampled_from([0, 1])), N=draw(st.integers(0, n)))
        return {"script": script, "args": a, "offset": draw(st.integers(0, 100)), "seed": draw(st.integers(0, 2 ** 16)), "words": n,
                "again": draw(st.sampled_from([0, 1]))}
    if script[:-2] in ("entropy", "unified"):
        a["raw_ber"] = draw(st.sampled_from([0.05, 0, 0.2]))
    if script.endswith("23"):
        a["separate_models"] = draw(st.integers(0, 1))
    dates = ["14", "16"] if script.endswith("22") else ["17", "18"]
    a["experiment_date"] = draw(st.sampled_from(["all"] + dates))
    noise = st.sampled_from([0.5, 0.9, 1.1, 1.4])
    rows = {}
    for d in dates if a["experiment_date"] == "all" else [a["experiment_date"]]:
        rows[d] = draw(st.lists(st.tuples(noise, st.sampled_from([1, 1, 0]), st.sampled_from([0, 0, 0, 1])).map(list), min_size=2, max_size=draw(st.sampled_from([3, 4, 7]))))
    first = rows[min(rows)]
    first[0][1:] = 1, 0  # the layout is taken from the first word
    return {"script": script, "args": a, "offset": draw(st.integers(0, 100)), "seed": draw(st.integers(0, 2 ** 16)), "rows": rows,
            "again": draw(st.sampled_from([0, 0, 1])), "erased": draw(st.sampled_from([0, 0, 9]))}


def grid():
    out = []
    for script in SCRIPTS:
        for v in (0, 1):
            a = {"ldpciterations": 2 + v, "dec_type": ["BP", "MS"][v], "window_len": 1 - v, "conf_center": 1, "conf_slope": [1.0, 0.35][v]}
            if script[:-2] in ("entropy", "unified", "code"):
                a.update(ent_threshold=0.4, clipping_factor=1 + v)
            if script[:-2] in ("entropy", "code"):
                a["model_length"] = ["all", "info"][v]
            if script[:-2] == "unified":
                a.update(learn=v, flip=v)
            if script[:-2] in ("unified", "mavlink"):
                a.update(valid_factor=2.0, invalid_factor=0.5, valid_threshold=0.05, invalid_threshold=0.2)
            if script[:-2] == "mavlink":
                a["segiterations"] = 1 + v
            if script == "code22":
                a.update(minflip=0.02, maxflip=0.13, nflips=2, processes=1 + v, multiply_data=v, N=2 * v)
                out.append({"script": script, "args": a, "offset": 30, "seed": 3, "words": 3, "again": 1})
                continue
            if script[:-2] in ("entropy", "unified"):
                a["raw_ber"] = 0.1 * v
            if script.endswith("23"):
                a["separate_models"] = v
            dates = ["14", "16"] if script.endswith("22") else ["17", "18"]
            a["experiment_date"] = ["all", dates[1]][v]
            rows = {d: [[0.6, 1, 0], [1.1, 1 - i, 0], [1.3, i, 0], [0.5, 1, 1]] for i, d in enumerate(dates)}
            out.append({"script": script, "args": a, "offset": 10 * v, "seed": v, "rows": rows if not v else {dates[1]: rows[dates[1]]},
                        "again": v, "erased": 20 * v})
    return out


def model(case):
    year = "20" + case["script"][-2:]
    path = os.path.join(RUNS, "Feb_" + year, "data", "model_%s.json" % year)
    if path not in _cache:
        with open(path) as f:
            text = json.load(f)
        for m in text["field_models"].values():  # a short part, as loading the whole takes long
            m["samples"] = m["samples"][:60]
        _cache[path] = json.dumps(text)
    return os.path.basename(path), _cache[path]


def prepare(case, scratch):
    for d in ("data", "results", "spec"):
        os.mkdir(os.path.join(scratch, d))
    shutil.copy(ALIST, os.path.join(scratch, "spec"))
    name, text = model(case)
    with open(os.path.join(scratch, "data", name), "w") as f:
        f.write(text)
    if case["script"] == "code22":
        rng = np.random.default_rng(case["seed"])
        np.savetxt(os.path.join(scratch, "data", "non_repeated_tx.csv"), sent(case, rng), fmt="%d", delimiter=",")
    else:
        end = "" if case["script"].endswith("22") else "_telemetry"
        for date, (tx, rx) in data(case).items():
            np.savetxt(os.path.join(scratch, "data", "feb_%s_tx%s.csv" % (date, end)), tx, fmt="%d", delimiter=",")
            np.savetxt(os.path.join(scratch, "data", "feb_%s_llr%s.csv" % (date, end)), rx, fmt="%.17g", delimiter=",")


def simulate(case, argv):
    scratch = tempfile.mkdtemp(prefix="verif_c28_")
    try:
        prepare(case, scratch)
        launch(case, scratch, argv, os.path.join(RUNS, SCRIPTS[case["script"]][0]))
        cmds = glob.glob(os.path.join(scratch, "results", "*", "cmd.txt"))
        check(len(cmds) == 1, "%d result folders with a recorded command", len(cmds))
        folder = os.path.dirname(cmds[0])
        with open(cmds[0]) as f:
            command = f.read()
        packed = glob.glob(os.path.join(folder, "*.xz"))
        check(len(packed) == 1, "%d files of results", len(packed))
        with lzma.open(packed[0], "rb") as f:
            results = pickle.load(f)
        text, summary = "", None
        if case["script"] == "code22":
            with open(glob.glob(os.path.join(folder, "*summary*.pickle"))[0], "rb") as f:
                summary = pickle.load(f)
            mat = loadmat(glob.glob(os.path.join(folder, "*summary*.mat"))[0])
        else:
            with open(os.path.join(folder, "summary.txt")) as f:
                text = f.read()
            mat = loadmat(glob.glob(os.path.join(folder, "*.mat"))[0])
        return results, summary, command, mat, text
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def sent(case, rng):
    return np.array([word(case["offset"] + i, rng) for i in range(case["words"])])


def build(case, table, ber, first, flavour=None):
    a = case["args"]
    h = code()[0]
    inner = LogSpaDecoder(h=h.to_array() if case["script"] in ("entropy22", "code22") else h.to_sparse(), max_iter=a["ldpciterations"],
                          decoder_type=a["dec_type"], info_idx=np.arange(N) < K)
    if table == "ldpc":
        return lambda llr, err: inner.decode(llr)
    window = a["window_len"] or None
    conf = dict(conf_center=a["conf_center"], conf_slope=a["conf_slope"])
    if table == "entropy":
        d = ClassifyingEntropyDecoder(inner, model_length=K if a["model_length"] == "info" else N, entropy_threshold=a["ent_threshold"],
                                      clipping_factor=a["clipping_factor"], classifier_training=0, n_clusters=1, window_length=window,
                                      bit_flip=ber, cluster=0, **conf)
        return lambda llr, err: d.decode_buffer(llr)
    scratch = tempfile.mkdtemp(prefix="verif_c28_")
    try:
        path = os.path.join(scratch, "model.json")
        with open(path, "w") as f:
            f.write(model(case)[1])
        fields = None if a.get("learn") else BufferModel.load(path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    layout = BufferSegmentation(meta.protocol_parser).segment_buffer(np.packbits(first[:K]).tobytes())[2]
    if table == "nr":
        d = CombinedUnifiedDecoder(inner, model_length=K, valid_thr=a["valid_threshold"], invalid_thr=a["invalid_threshold"], n_clusters=1,
                                   valid_factor=a["valid_factor"], invalid_factor=a["invalid_factor"],
                                   entropy_threshold=a["ent_threshold"], clipping_factor=a["clipping_factor"],
                                   classifier_training_size=0, cluster=False, window_length=window, data_model=fields, debug=True,
                                   bit_flip=ber, flip=bool(a["flip"]), **conf)
    else:
        d = MavlinkRectifyingDecoder(inner, K, a["valid_threshold"], a["invalid_threshold"], 1, a["valid_factor"], a["invalid_factor"], 0,
                                     False, window, fields, a["conf_center"], a["conf_slope"], segmentation_iterations=a["segiterations"])
    d.set_buffer_structures([layout])
    return lambda llr, err: d.decode_buffer(llr, err)


def replay(case, what, t, table, ber, words, values, errors):
    decode = build(case, table, ber, words[0])
    for j in range(len(values)):
        got = decode(np.array(values[j]), errors[j])
        check(np.array_equal(got[0], t["estimate"][j]), "%s%s: word %d is decoded differently by a decoder with the arguments of the run",
              what, table, j)
        check(same(np.asarray(t["llr"][j], dtype=float), np.asarray(got[1], dtype=float)) and bool(t["decode_success"][j]) == bool(got[2])
              and t["iterations"][j] == got[3],
              "%s%s: word %d: reliabilities, success or iterations are not those of a decoder with the arguments of the run", what, table, j)
        bad = rest(t, table, j, got)
        check(bad is None, "%s%s: word %d: %s is not that of a decoder with the arguments of the run", what, table, j, bad)
        check(bool(got[2]) == (not np.any(code()[1] @ np.asarray(t["estimate"][j], dtype=int) % 2)),
              "%s%s: word %d: reported success does not follow from the parity checks", what, table, j)


def run(case, info):
    a, script = case["args"], case["script"]
    argv = [x for k, v in a.items() for x in ("--" + k, str(v))]
    results, summary, command, mat, text = simulate(case, argv)
    if script == "code22":
        run_code(case, info, results, summary, mat)
    else:
        run_trial(case, info, results, mat, text)
    tokens = shlex.split(command)
    check(len(tokens) > 2 and os.path.basename(tokens[1]) == os.path.basename(SCRIPTS[script][0]), "recorded command %s", command)
    read = None if case["again"] else understood(case, tokens[2:], prepare, os.path.join(RUNS, SCRIPTS[script][0]))
    if read:
        for k, v in a.items():
            check(read[0].get(k) == v, "the recorded command sets %s to %s, the run had %s", k, read[0].get(k), v)
    if case["again"]:
        again, summary2, _, mat2, text2 = simulate(case, tokens[2:])
        one, two = (results, again) if script == "code22" else ([results], [again])
        check(len(one) == len(two) and text == text2, "the recorded command does not repeat the run")
        if script == "code22":
            for k, v in vars(summary2["args"]).items():
                check(vars(summary["args"]).get(k) == v, "the recorded command sets %s to %s, the run had %s", k, v, vars(summary["args"]).get(k))
        else:
            given, repeated = mat["args"][0, 0], mat2["args"][0, 0]
            for k in given.dtype.names:
                check(np.array_equal(given[k], repeated[k]), "the recorded command sets %s to %s, the run had %s", k, repeated[k], given[k])
        for x, y in zip(one, two):
            for table in ("ldpc", SCRIPTS[script][1]):
                t, u = x["decoded_" + table], y["decoded_" + table]
                check(len(t) == len(u) and all(np.array_equal(p, q) for p, q in zip(t["estimate"], u["estimate"])),
                      "the recorded command does not repeat the run")
        info.label("repeated")
    info.label(script)


def run_trial(case, info, results, mat, text):
    a, script = case["args"], case["script"]
    _, table, rate, ber = SCRIPTS[script]
    parts = data(case)
    tx = np.vstack([parts[d][0] for d in sorted(parts)])
    rx = np.vstack([parts[d][1] for d in sorted(parts)])
    known = tx[:, 0] != 2
    count = len(tx)
    check(results["number_of_buffers"] == count and results["buffer_len"] == N and results["max_ldpc_iterations"] == a["ldpciterations"],
          "%s words of %s bits and %s iterations reported", results["number_of_buffers"], results["buffer_len"],
          results["max_ldpc_iterations"])
    d = results["data"]
    check(len(d) == count and all(np.array_equal(x, y) for x, y in zip(d["encoded"], tx)) and
          all(np.array_equal(x, y) for x, y in zip(d["corrupted"], rx)), "the words saved are not those recorded")
    wrong = tx != (rx < 0)
    for j in range(count):
        e = (int(wrong[j, :K].sum()), int(wrong[j, K:].sum()), wrong[j].mean()) if known[j] else (-1, -1, -1)
        got = (d["info_errors"][j], d["parity_errors"][j], d["input_ber"][j])
        check(got[0] == e[0] and got[1] == e[1] and math.isclose(got[2], e[2], abs_tol=1e-12) and
              math.isclose(results["input_ber"][j], e[2], abs_tol=1e-12),
              "word %d: errors in information and parity bits and error rate %s reported, are %s", j, got, e)
        if known[j]:
            check(np.array_equal(np.asarray(d["error_idx"][j]).astype(bool), wrong[j]), "word %d: errors reported are not those of the word", j)
    lines = text.splitlines()
    for i, (tab, r, b) in enumerate((("ldpc", "ldpc_buffer_success_rate", "ldpc_decoder_ber"), (table, rate, ber))):
        t = results["decoded_" + tab]
        est = np.array([np.array(e, dtype=np.int_) for e in t["estimate"]])
        dist = np.where(known, (est != tx).sum(axis=1), -1)
        check(np.array_equal(np.asarray(t["hamming"], dtype=np.int_), dist), "%s: distances %s saved, are %s", tab, list(t["hamming"]), dist)
        good = sum(bool(x) for x in t["decode_success"])
        check(math.isclose(results[r], good / count, abs_tol=1e-12), "%s: success rate %s, is %s", tab, results[r], good / count)
        check(math.isclose(results[b], (est != tx)[known].mean(), abs_tol=1e-12), "%s: bit error rate %s, is %s", tab, results[b],
              (est != tx)[known].mean())
        check(lines[i].endswith(" %d/%d" % (good, count)), "%s: %s in the summary, are %d of %d", tab, lines[i], good, count)
        for name in (r, b):
            check(math.isclose(float(np.ravel(mat[name])[0]), results[name], abs_tol=1e-12), "%s differs between the saved results", name)
        errors = [np.flatnonzero(wrong[j]) if known[j] else None if tab == "nr" else np.array([], dtype=int) for j in range(count)]
        replay(case, "", t, tab, a.get("raw_ber", 0), tx, rx, errors)
        if good not in (0, count):
            info.label("some succeed")
    info.label(*(["unidentified"] if not known.all() else []), a["experiment_date"])
    info.mark(wrong[known].any())


def run_code(case, info, results, summary, mat):
    a = case["args"]
    rng = np.random.default_rng(case["seed"])
    tx = sent(case, rng)
    tx = tx[:a["N"]] if a["N"] else tx
    tx = np.vstack([tx] * 2 ** a["multiply_data"]).astype(int)
    ps = np.linspace(a["minflip"], a["maxflip"], num=a["nflips"])
    check(len(results) == len(ps), "%d results for %d points", len(results), len(ps))
    for i, (p, step) in enumerate(zip(ps, results)):
        d = step["data"]
        check(step["number_of_buffers"] == len(tx) == len(d) and step["buffer_len"] == N and
              step["max_ldpc_iterations"] == a["ldpciterations"], "point %d: %s words of %s bits and %s iterations reported", i,
              step["number_of_buffers"], step["buffer_len"], step["max_ldpc_iterations"])
        words = np.array([np.array(w, dtype=int) for w in d["encoded"]])
        rx = np.array([np.array(w, dtype=int) for w in d["corrupted"]])
        check(np.array_equal(words, tx), "point %d: the words sent are not those recorded", i)
        wrong = words != rx
        for j in range(len(tx)):
            e = np.asarray(d["error_idx"][j])
            check(np.array_equal(np.sort(e), np.flatnonzero(wrong[j])) and len(e) == int(N * p),
                  "point %d: word %d: %d errors reported, %d present, %d asked for", i, j, len(e), wrong[j].sum(), int(N * p))
            check(d["info_errors"][j] == wrong[j, :K].sum() and d["parity_errors"][j] == wrong[j, K:].sum(),
                  "point %d: word %d: errors in information and parity bits", i, j)
        check(math.isclose(step["raw_ber"], wrong.mean(), abs_tol=1e-12) and math.isclose(summary["raw_ber"][i], wrong.mean(), abs_tol=1e-12),
              "point %d: raw bit error rate %s and %s, is %s", i, step["raw_ber"], summary["raw_ber"][i], wrong.mean())
        for tab in ("ldpc", "entropy"):
            t = step["decoded_" + tab]
            est = np.array([np.array(e, dtype=np.int_) for e in t["estimate"]])
            dist = (est != words).sum(axis=1)
            check(np.array_equal(np.asarray(t["hamming"], dtype=np.int_), dist), "point %d, %s: distances %s saved, are %s", i, tab,
                  list(t["hamming"]), dist)
            for name, of, x in ((tab + "_buffer_success_rate", tab + "_buffer_success_rate", (dist == 0).mean()),
                                (tab + "_decoder_ber", tab + "_ber", (est != words).mean())):
                check(math.isclose(step[name], x, abs_tol=1e-12) and math.isclose(summary[of][i], x, abs_tol=1e-12) and
                      math.isclose(np.ravel(mat[of])[i], x, abs_tol=1e-12), "point %d: %s is %s and %s in the summary, should be %s", i, name,
                      step[name], summary[of][i], x)
            replay(case, "point %d, " % i, t, tab, p, words, [bsc_llr(p=p)(r) for r in rx], [None] * len(rx))
    info.mark(len(tx) > 1)


def subs():
    return [Exhaustive("grid", grid, run, "every run with two settings; all have several words", spread=True, patience=3),
            Sub("runs", cases, run, "runs with generated arguments and recordings; non-trivial with errors to correct", 16, 800, patience=3)]
