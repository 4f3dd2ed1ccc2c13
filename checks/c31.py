"""C31: the analyses of the field classifier and of clustering report what happened to the words"""
import glob
import json
import math
import os
import pickle
import shlex
import shutil
import tempfile
import numpy as np
from bitstring import Bits
from hypothesis import strategies as st
from scipy.io import loadmat
from vlib.core import Exhaustive, REPO, Sub, check
from checks.c08 import named_atoms
from checks.c27 import HC, PARTS, encoder, launch, recording, understood
from checks.c26 import relabel
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta

ASSUMPTIONS = ["runs are whole runs of the scripts as they are, in a scratch directory, on consecutive parts of the repository's "
               "recording, with noise seeded through numpy's generators",
               "predictions and means of this tree's field models are used: what these do is the subject of C07 and C08",
               "clustering: the table of telemetry words is not in the repository: it is made of the recording; labels which were given are "
               "taken from the calls of the classifiers"]
SCRIPT = os.path.join(REPO, "scripts", "classifier_analysis.py")
CLUSTER = os.path.join(REPO, "runs", "clsutering_analysis", "clustering_analysis.py")
MODEL = os.path.join(HC, "data", "model_2018_all.json")
MODELS = ["all", "few", "one", "constant"]


def model_text(case):
    """the model of the repository, or a part of it"""
    with open(MODEL) as f:
        text = json.load(f)
    m = text["field_models"]
    for i, (name, x) in enumerate(sorted(m.items())):
        if case["model"] == "few":
            x["samples"] = x["samples"][case["offset"]:case["offset"] + 7]
        elif case["model"] == "one":
            x["samples"] = x["samples"][case["offset"]:case["offset"] + 1]
        elif case["model"] == "constant":
            x["samples"] = x["samples"][case["offset"]:case["offset"] + 1] * 5 if i % 2 else x["samples"][:40]
        else:
            x["samples"] = x["samples"][:200]
    return text


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    lo, hi = sorted(draw(st.tuples(*[st.sampled_from([0.002, 0.01, 0.03, 0.05, 0.07])] * 2)))
    a = {"minflip": lo, "maxflip": hi, "nflips": draw(st.integers(1, 2)), "multiply_data": draw(st.sampled_from([0, 0, 1])),
         "processes": draw(st.integers(1, 2)), "msg_delay": draw(st.sampled_from(["20000", "50000"])),
         "threshold": draw(st.sampled_from([0.0, 0.03, 0.1, 0.3, 0.5, 0.8])), "window_len": draw(st.sampled_from([0, 1, 50])), "n_clusters": k,
         "learn": 0, "conf_center": draw(st.sampled_from([0, 40])), "conf_slope": draw(st.sampled_from([0.35, 1.0]))}
    return {"args": a, "offset": draw(st.integers(0, 100)), "words": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 2 ** 16)),
            "model": draw(st.sampled_from(MODELS)), "again": draw(st.sampled_from([0, 0, 1]))}


def grid():
    out = []
    for k in (1, 2, 3):
        for i, model in enumerate(MODELS):
            a = {"minflip": 0.01, "maxflip": 0.07, "nflips": 2, "multiply_data": int(i == 3), "processes": 1, "msg_delay": ["20000", "50000"][i % 2],
                 "threshold": [0.1, 0.5, 0.0, 0.3][(i + k) % 4], "window_len": [50, 0][i % 2], "n_clusters": k, "learn": 0, "conf_center": 40,
                 "conf_slope": 0.35}
            out.append({"args": a, "offset": 10 * k + i, "words": 3, "seed": i, "model": model, "again": int(i == 1)})
    return out


def prepare(case, scratch):
    data = os.path.join(scratch, "runs", "HC_eilat_July_2018", "data")
    os.makedirs(data)
    os.makedirs(os.path.join(scratch, "scripts", "results"))
    with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
        pickle.dump({k: [{"timestamp": i, "bin": b} for i, b in enumerate(v[case["offset"]:case["offset"] + case["words"]])]
                     for k, v in recording().items() if k in ("20000", "50000")}, f)
    with open(os.path.join(data, "model_2018_all.json"), "w") as f:
        json.dump(model_text(case), f)


def rows(x, n):
    """one flat array for each of n words, from what MATLAB's format makes of a list"""
    if x.dtype == object:
        x = x.ravel()
        check(len(x) == n, "%d values for %d words", len(x), n)
        return [np.ravel(v) for v in x]
    check(x.size % n == 0, "%d values for %d words", x.size, n)
    return list(np.asarray(x).reshape(n, -1))


def simulate(case, argv):
    scratch = tempfile.mkdtemp(prefix="verif_c31_")
    try:
        prepare(case, scratch)
        cwd = os.path.join(scratch, "scripts")
        launch(case, cwd, argv, SCRIPT)
        cmds = glob.glob(os.path.join(cwd, "results", "*", "cmd.txt"))
        check(len(cmds) == 1, "%d result folders with a recorded command", len(cmds))
        folder = os.path.dirname(cmds[0])
        with open(cmds[0]) as f:
            command = f.read()
        summaries = glob.glob(os.path.join(folder, "*summary*.mat"))
        all_mats = glob.glob(os.path.join(folder, "*.mat"))
        check(len(summaries) == 1 and len(all_mats) == 2, "%d summaries and %d files of results", len(summaries), len(all_mats))
        (other,) = set(all_mats) - set(summaries)
        return loadmat(summaries[0]), loadmat(other)["results"], command
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confusion(chosen, true, total):
    """hits, false alarms, right and wrong rejections, positives and negatives"""
    chosen, true = set(map(int, chosen)), set(map(int, true))
    rest = set(range(total))
    return [len(chosen & true), len(chosen - true), len(rest - chosen - true), len(true - chosen), len(true), len(rest - true)]


def ints(x):
    return [int(v) for v in np.ravel(x)]


def run(case, info):
    a = case["args"]
    argv = [x for k, v in a.items() for x in ("--" + k, str(v))]
    summary, results, command = simulate(case, argv)
    k = a["n_clusters"]
    enc = encoder(k)
    buffers = recording()[a["msg_delay"]][case["offset"]:case["offset"] + case["words"]]
    want = [np.array(Bits(bytes=b)[i:j], dtype=np.int_) for b in buffers for i, j in PARTS[k]] * 2 ** a["multiply_data"]
    last = Bits(bytes=buffers[-1])
    bs = BufferSegmentation(meta.protocol_parser)
    layouts = [bs.segment_buffer(last[i:j].tobytes())[2] for i, j in PARTS[k]]
    ps = np.linspace(a["minflip"], a["maxflip"], num=a["nflips"])
    results = results.ravel()
    check(len(results) == len(ps), "%d results for %d points", len(results), len(ps))
    n = len(want)
    seen = set()
    forced_any = False
    scratch = tempfile.mkdtemp(prefix="verif_c31_")
    try:
        path = os.path.join(scratch, "model.json")
        with open(path, "w") as f:
            json.dump(model_text(case), f)
        model = BufferModel.load(path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sent = None
    for i, p in enumerate(ps):
        step = results[i][0, 0] if results[i].dtype.names is None else results[i].ravel()[0]
        get = lambda name: step[name]
        flips = int(enc.n * p)
        check(int(get("number_of_buffers").item()) == n and int(get("no_errors").item()) == flips and int(get("buffer_len").item()) == enc.n
              and math.isclose(get("raw_ber").item(), flips / enc.n) and math.isclose(get("p").item(), p),
              "point %d: %s words of %s bits with %s errors reported, expected %d of %d with %d", i, get("number_of_buffers"), get("buffer_len"),
              get("no_errors"), n, enc.n, flips)
        d = get("data")[0, 0]
        words, rx = np.array(rows(d["encoded"], n)), np.array(rows(d["corrupted"], n))
        check(words.shape == rx.shape == (n, enc.n) and not np.any(words @ enc.h.T % 2), "point %d: a word which was sent is no codeword", i)
        for j, x in enumerate(want):
            check(np.array_equal(words[j][:len(x)], x), "point %d: word %d does not carry the data recorded", i, j)
        check(sent is None or np.array_equal(words, sent), "point %d: other words are sent than at the first point", i)
        sent = words
        wrong = words != rx
        errors = [np.flatnonzero(w) for w in wrong]
        for name, x in (("errors", rows(get("errors"), n)), ("error_idx", rows(d["error_idx"], n))):
            check(all(len(x[j]) == flips and ints(np.sort(x[j])) == ints(errors[j]) for j in range(n)),
                  "point %d: errors reported as %s are not those of the words", i, name)
        check(ints(d["info_errors"]) == ints(wrong[:, :enc.k].sum(axis=1)) and ints(d["parity_errors"]) == ints(wrong[:, enc.k:].sum(axis=1)),
              "point %d: numbers of errors in information and parity bits", i)
        c, f = get("classifier")[0, 0], get("forcing")[0, 0]
        check(ints(c["cluster_label"]) == [j % k for j in range(n)], "point %d: clusters %s saved", i, ints(c["cluster_label"]))
        tables = {name: rows(t[name], n) for t, names in ((c, ("good_fields", "bad_fields", "good_bits", "bad_bits", "damaged_fields")),
                                                          (f, ("forced_fields", "forced_bits", "correctly_forced_bits",
                                                               "incorrectly_forced_bits", "missed_forced_bits", "correctly_forced_fields",
                                                               "incorrectly_forced_fields", "missed_forced_fields"))) for name in names}
        figures = {name: np.asarray(get(name)) for name in ("good_fields_performance", "bad_fields_performance", "forced_fields_performance",
                                                            "forced_bits_performance", "flipped_bits_performance", "forcing_quality")}
        for name, x in figures.items():
            check(x.shape == (n, 6), "point %d: %s has shape %s", i, name, x.shape)
        for j in range(n):
            layout = layouts[j % k]
            names, atoms = named_atoms(layout, enc.n // 8)
            damaged = [q for q, (_, _, first, width, _) in enumerate(atoms) if wrong[j, first:first + width].any()]
            fields, bits, std = model.predict(rx[j].astype(np.int_), layout)
            total = len(atoms)
            check(len(fields) == total, "point %d: word %d: %d fields are predicted, the layout has %d", i, j, len(fields), total)
            prob = np.array([x[1] for x in fields])
            good, bad = np.flatnonzero(prob > 1 - a["threshold"]), np.flatnonzero(prob < a["threshold"])
            forced = np.array([q for q in range(total) if prob[q] <= 0 and fields[q][2] == 0], dtype=int)
            fbits = np.flatnonzero((bits <= 0) & (std == 0))
            mean = np.asarray(model.bitwise_model_mean(fbits, enc.n // 8, layout), dtype=int)
            changed = fbits[mean != rx[j][fbits]] if len(fbits) else fbits
            e = set(ints(errors[j]))
            expect = {"good_fields": good, "bad_fields": bad, "good_bits": bits > 1 - a["threshold"], "bad_bits": bits < a["threshold"],
                      "damaged_fields": damaged, "forced_fields": forced, "forced_bits": fbits,
                      "correctly_forced_bits": sorted(set(ints(fbits)) & e), "incorrectly_forced_bits": sorted(set(ints(fbits)) - e),
                      "missed_forced_bits": sorted(e - set(ints(fbits))),
                      "correctly_forced_fields": sorted(set(ints(forced)) & set(damaged)),
                      "incorrectly_forced_fields": sorted(set(ints(forced)) - set(damaged)),
                      "missed_forced_fields": sorted(set(damaged) - set(ints(forced)))}
            for name, x in expect.items():
                got, x = ints(tables[name][j]), ints(x)
                if not name.endswith("_bits") or name.count("_") > 1 or name == "forced_bits":
                    got = sorted(got)
                check(got == x, "point %d: word %d: %s %s saved, are %s", i, j, name, got, x)
            fine = sorted(set(range(total)) - set(damaged))
            perf = {"good_fields_performance": confusion(good, fine, total), "bad_fields_performance": confusion(bad, damaged, total),
                    "forced_fields_performance": confusion(forced, damaged, total),
                    "forced_bits_performance": confusion(fbits, e, enc.n), "flipped_bits_performance": confusion(changed, e, enc.n),
                    "forcing_quality": [len(e), len(fbits), len(changed), len(set(ints(changed)) & e), len(set(ints(changed)) - e),
                                        float(np.mean(mean != words[j][fbits])) if len(fbits) else 0]}
            for name, x in perf.items():
                check(np.allclose(figures[name][j], x, atol=1e-9), "point %d: word %d: %s %s saved, is %s", i, j, name,
                      figures[name][j].tolist(), x)
            forced_any |= len(changed) > 0
            seen.update(["good"] * bool(len(good)), ["bad"] * bool(len(bad)), ["forced"] * bool(len(fbits)), ["flipped"] * bool(len(changed)))
        for name, x in figures.items():
            s = x.sum(axis=0).astype(float)
            if name == "forcing_quality":
                s[-1] /= n
            check(np.asarray(summary[name]).shape == (len(ps), 6) and np.allclose(summary[name][i], s, atol=1e-9),
                  "point %d: %s is %s in the summary, the words give %s", i, name, summary[name][i], s)
    check(np.allclose(np.ravel(summary["bit_flip_p"]), ps), "probabilities %s in the summary", summary["bit_flip_p"])
    again(case, a, command, SCRIPT, lambda argv: understood(case, argv, prepare, SCRIPT))
    if case["again"]:
        results2 = simulate(case, shlex.split(command)[2:])[1].ravel()
        check(len(results2) == len(results), "the recorded command does not repeat the run")
        for x, y in zip(results, results2):
            x, y = x[0, 0]["data"][0, 0], y[0, 0]["data"][0, 0]
            check(np.array_equal(np.array(rows(x["encoded"], n)), np.array(rows(y["encoded"], n))), "the recorded command does not repeat the run")
        info.label("repeated")
    info.label("%d clusters" % k, case["model"], *seen)
    info.mark(n > 1 and "good" in seen or "bad" in seen or forced_any)




def again(case, a, command, script, ask):
    tokens = shlex.split(command)
    check(len(tokens) > 2 and os.path.basename(tokens[1]) == os.path.basename(script), "recorded command %s", command)
    read = ask(tokens[2:])
    if read:
        for k, v in a.items():
            check(read[0].get(k) == v, "the recorded command sets %s to %s, the run had %s", k, read[0].get(k), v)


@st.composite
def cluster_cases(draw):
    n = draw(st.sampled_from([2, 3]))
    words = draw(st.integers(4, 14))
    a = {"n_classes": n, "p": draw(st.sampled_from([0.0, 0.005, 0.03, 0.07, 0.2])), "n_training": draw(st.integers(n, n * (words - 2))),
         "train_with_errors": draw(st.integers(0, 1)), "shuffle": draw(st.integers(0, 1)), "n_runs": draw(st.integers(1, 3)),
         "n_jobs": draw(st.integers(1, 2))}
    return {"args": a, "offset": draw(st.integers(0, 100)), "words": words, "seed": draw(st.integers(0, 2 ** 16))}


def cluster_grid():
    return [{"args": {"n_classes": n, "p": 0.07, "n_training": 3 * n + n * e + s, "train_with_errors": e, "shuffle": s, "n_runs": 1 + s, "n_jobs": 1},
             "offset": 5 * n, "words": 8 + 2 * s, "seed": e} for n in (2, 3) for e in (0, 1) for s in (0, 1)]


def table(case):
    b = recording()["50000"][case["offset"]:case["offset"] + case["words"]]
    return np.array([np.unpackbits(np.frombuffer(x, dtype=np.uint8)) for x in b])


def prepare_clusters(case, scratch):
    os.mkdir(os.path.join(scratch, "results"))
    np.savetxt(os.path.join(scratch, "telemetry_hc_tx_info_bits_2023.csv"), table(case), fmt="%d", delimiter=",")


def run_clusters(case, info):
    a = case["args"]
    argv = [x for k, v in a.items() for x in ("--" + k, str(v))]
    scratch = tempfile.mkdtemp(prefix="verif_c31_")
    try:
        prepare_clusters(case, scratch)
        launch(case, scratch, argv, CLUSTER)
        mats = glob.glob(os.path.join(scratch, "results", "*", "*.mat"))
        cmds = glob.glob(os.path.join(scratch, "results", "*", "cmd.txt"))
        check(len(mats) == 1 and len(cmds) == 1, "%d files of results and %d recorded commands", len(mats), len(cmds))
        mat = loadmat(mats[0])
        with open(cmds[0]) as f:
            command = f.read()
        calls = {}
        for path in sorted(glob.glob(os.path.join(scratch, "labels_*.pickle"))):
            with open(path, "rb") as f:
                while f.peek(1):
                    number, cls, name, x, got = pickle.load(f)
                    calls.setdefault((path, number, cls), []).append((name, x, got))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    n, train = a["n_classes"], a["n_training"]
    data = table(case)
    width = data.shape[1] // n
    parts = np.stack([data[:, c * width:(c + 1) * width] for c in range(n)])  # class, word, bit
    total = len(data) * n
    mine = [v for k, v in calls.items() if k[2] == "BufferClassifier"]
    mixtures = [v for k, v in calls.items() if k[2] == "BMM"]
    check(len(mine) == len(mixtures) == a["n_runs"], "%d and %d classifiers in %d runs", len(mine), len(mixtures), a["n_runs"])
    cms = {"clustering": [], "bmm": []}
    spoilt = 0
    for v in mine:
        words = np.array([x for _, x, _ in v]).astype(int)
        given = np.array([int(g) for _, _, g in v])
        check(words.shape == (total, {2: 648, 3: 486}[n]), "words of shape %s are classified", words.shape)
        dist = np.array([[[np.sum(w[:width] != parts[c, t]) for t in range(len(data))] for c in range(n)] for w in words])
        near = dist.min(axis=2)
        real = near.argmin(axis=1)
        check(np.array_equal(np.bincount(real, minlength=n), [len(data)] * n), "%s words of the classes are classified, each has %d",
              np.bincount(real, minlength=n), len(data))
        errors = near.min(axis=1)
        if not a["shuffle"]:
            check(np.array_equal(real, np.arange(total) % n), "words come in another order")
        if not a["train_with_errors"]:
            check(not errors[:train].any(), "a word without errors was asked for in training, %d bits are wrong", errors[:train].max())
        if int(words.shape[1] * a["p"]) >= 6 * n:  # enough that it cannot be taken for another word
            check(errors[train:].all(), "a word which is classified is not damaged")
            if a["train_with_errors"]:
                check(errors[:train].all(), "a word in training is not damaged")
            spoilt = 1
        (mix,) = [m for m in mixtures if any(np.array_equal(x, words[:train]) for name, x, _ in m if name == "fit")][:1] or [None]
        check(mix is not None, "no mixture model is fitted to the words the classifier is trained on")
        mixtures = [m for m in mixtures if m is not mix]
        guess = [g for name, x, g in mix if name == "predict" and np.array_equal(x, words[train:])]
        check(len(guess) > 0, "the mixture model is not asked about the words which are classified")
        for name, labels in (("clustering", given[train:]), ("bmm", np.asarray(guess[-1]))):
            check(labels.min() >= 0 and labels.max() < n, "%s: labels %s", name, labels)
            new, _ = relabel(labels.astype(np.uint8), n, real[train:])
            cms[name].append([[np.sum((real[train:] == i) & (new == j)) for j in range(n)] for i in range(n)])
    for name, many in cms.items():
        cm = np.round(np.mean(many, axis=0)).astype(int)
        check(np.array_equal(mat[name + "_cm"], cm), "%s: confusion %s saved, the labels give %s", name, mat[name + "_cm"].tolist(), cm.tolist())
        check(math.isclose(mat[name + "_accuracy"].item(), np.trace(cm) / cm.sum()), "%s: accuracy %s", name, mat[name + "_accuracy"])
        real = cm.sum(axis=1)
        if real.all():
            check(np.allclose(np.ravel(mat[name + "_recall"]), np.diag(cm) / real), "%s: recall %s", name, mat[name + "_recall"])
        made = cm.sum(axis=0)
        for i in range(n):
            if made[i]:
                check(math.isclose(np.ravel(mat[name + "_precision"])[i], cm[i, i] / made[i]), "%s: precision %s", name, mat[name + "_precision"])
    check(int(mat["classified_buffers"].item()) == np.asarray(mat["clustering_cm"]).sum() and int(mat["n_training"].item()) == train and
          int(mat["n_classes"].item()) == n and math.isclose(mat["p"].item(), a["p"]) and
          bool(mat["train_with_errors"].item()) == bool(a["train_with_errors"]), "settings saved are not those of the run")
    again(case, {k: v for k, v in a.items() if k != "n_jobs"}, command, CLUSTER,
          lambda argv: understood(case, argv, prepare_clusters, CLUSTER))
    info.label("%d classes" % n, "shuffled" if a["shuffle"] else "in order", *(["damaged"] if spoilt else []))
    info.mark(train > n and total - train > n)


def subs():
    return [Exhaustive("grid", grid, run, "one to three clusters with whole, short and constant models", spread=True, patience=3),
            Sub("fields", cases, run, "runs with generated arguments, models and parts of the recording; non-trivial when a field is judged", 24,
                600, patience=3),
            Exhaustive("clusters", cluster_grid, run_clusters, "two and three classes, with and without errors in training and shuffling",
                       spread=True, patience=3),
            Sub("clustering", cluster_cases, run_clusters, "runs with generated arguments and telemetry; non-trivial with more words than classes "
                "in training and test", 32, 600, patience=3)]
