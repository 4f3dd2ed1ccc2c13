"""C27: simulation runs send the recording, damage and decode it as asked, and report figures which follow from the words"""
import contextlib
import glob
import json
import lzma
import math
import os
import pickle
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import numpy as np
from bitstring import Bits
from hypothesis import strategies as st
from scipy.io import loadmat
from scipy.special import erfc
from ldpc.decoder import DecoderWiFi, GalBfDecoder, WbfDecoder, WbfVariant, awgn_llr, bsc_llr
from ldpc.encoder import EncoderWiFi
from ldpc.wifi_spec_codes import WiFiSpecCode
from vlib.core import Exhaustive, REPO, Sub, VERIF, check
from checks.c15 import same
from decoders import (ClassifyingDudeDecoder, ClassifyingEntropyDecoder, CombinedUnifiedDecoder, MavlinkRectifyingDecoder)
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta

ASSUMPTIONS = ["runs are whole runs of the scripts as they are, in a scratch directory, on consecutive parts of the repository's "
               "recording, with noise seeded through numpy's generators",
               "the repetition of decoding uses this tree's decoders: what these do is the subject of other properties",
               "over the Gaussian channel the received values are not saved: they are taken from the calls of the code's decoder, "
               "and have to be what the plain decoder was given",
               "weighted bit flipping (of the ldpc package) breaks ties at random: in the runs and their repetition the first bit is "
               "flipped"]
HC = os.path.join(REPO, "runs", "HC_eilat_July_2018")
SCRIPTS = {"entropy": "simulated_data_classifying_entropy_decoder.py", "pretrained": "simulated_data_pretrained_model.py",
           "dude": "simulated_data_classifying_dude_decoder.py", "mavlink": "simulated_data_mavlink_decoding.py",
           "combined": "simulated_data_combined_decoder.py", "awgn": "classifying_entropy_decoder_over_awgn_channel.py",
           "gallager": "simulate_gallager_bf.py"}
SPECS = {1: WiFiSpecCode.N1944_R23, 2: WiFiSpecCode.N1296_R12, 3: WiFiSpecCode.N648_R34}
PARTS = {1: [(0, 1224)], 2: [(0, 576), (576, 1224)], 3: [(0, 416), (416, 864), (864, 1224)]}
# figures of each table: success rate and bit error rate of a point, and their names in the summary
FIGURES = {"galbf": ("galbf_success_rate", "galbf_decoder_ber", "galbf_buffer_success_rate", "galbf_decoder_ber"),
           "entropy_galbf": ("galbf_entropy_success_rate", "galbf_entropy_decoder_ber", "entropy_buffer_success_rate",
                             "galbf_entropy_decoder_ber"),
           "entropy_galbf_forcing": ("entropy_forcing_success_rate", "entropy_forcing_decoder_ber",
                                     "entropy_forcing_buffer_success", "entropy_forcing_decoder_ber")}
TABLES = {"entropy": ["ldpc", "entropy"], "pretrained": ["ldpc", "entropy", "pre_trained"], "dude": ["ldpc", "dude"],
          "mavlink": ["ldpc", "rect"], "combined": ["ldpc", "nr", "entropy", "rectify"], "awgn": ["ldpc", "entropy"],
          "gallager": list(FIGURES)}
# the comparison of bit flipping decoders, which C30 is about
BF = {"wbf": 1, "mwbf": 2, "no_loop": 3}
PATHS = dict(SCRIPTS, bf="simluated_data_entropy_bf_decoders.py")
FIGURES["ms"] = ("ms_success_rate", "ms_decoder_ber", "ms_buffer_success_rate", "ms_ber")
for _v in BF:
    for _t in (_v, "entropy_" + _v):
        FIGURES[_t] = (_t + "_success_rate", _t + "_decoder_ber", _t + "_buffer_success_rate", _t + "_decoder_ber")
TABLES["bf"] = ["ms"] + [t for v in BF for t in (v, "entropy_" + v)]
_cache = {}


BASE = ["estimate", "llr", "decode_success", "iterations"]
ANSWER = {"ldpc": BASE + ["syndrome", "vnode_validity"], "nr": BASE + ["cluster_label"], "dude": BASE + ["cluster_label", "denoised_bits"],
          "rect": BASE + ["syndrome", "vnode_validity", "cluster_label", "segmented_bits", "good_field_idx", "bad_field_idx",
                          "classifier_performance", "forcing_performance"],
          "entropy": BASE + ["syndrome", "vnode_validity", "dist", "structural_idx", "cluster_label"]}
ANSWER["ms"] = ANSWER["ldpc"]
ANSWER.update({"entropy_" + v: ANSWER["entropy"] for v in BF})
ANSWER["rectify"] = ANSWER["rect"]
ANSWER["pre_trained"] = ANSWER["entropy_galbf"] = ANSWER["entropy_galbf_forcing"] = ANSWER["entropy"]


def alike(x, y):
    """equal values, whatever containers and number types they are in"""
    if isinstance(x, dict) or isinstance(y, dict):
        return isinstance(x, dict) and isinstance(y, dict) and x.keys() == y.keys() and all(alike(x[k], y[k]) for k in x)
    if x is None or y is None:
        return x is y
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype == object or y.dtype == object:
        return all(alike(a, b) for a, b in zip(x.ravel().tolist(), y.ravel().tolist()))
    return bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f"))


def rest(t, table, j, got):
    """name of a part of the answer, beyond the first ones, which is not saved as it was given"""
    for i, name in enumerate(ANSWER.get(table, [])):
        if i > 3 and name in t and i < len(got) and not alike(t[name][j], got[i]):
            return name


def figures(table):
    return FIGURES.get(table, (table + "_buffer_success_rate", table + "_decoder_ber", table + "_buffer_success_rate",
                               table + "_ber"))


def recording():
    if "rec" not in _cache:
        with open(os.path.join(HC, "data", "hc_to_ship.pickle"), "rb") as f:
            rec = pickle.load(f)
        _cache["rec"] = {k: [bytes(tx["bin"]) for tx in v] for k, v in rec.items()}
    return _cache["rec"]


def pretrained(case):
    if "pre" not in _cache:
        with open(os.path.join(HC, "data", "encoded_data_data_model_1_clusters.json")) as f:
            _cache["pre"] = np.array(json.load(f))
    return _cache["pre"][:, ::-1] if case.get("wrong") else _cache["pre"]


def encoder(clusters):
    if ("enc", clusters) not in _cache:
        _cache["enc", clusters] = EncoderWiFi(SPECS[clusters])
    return _cache["enc", clusters]


@st.composite
def cases(draw, scripts=tuple(SCRIPTS), clusters=None):
    script = draw(st.sampled_from(scripts))
    a = {"ldpciterations": draw(st.integers(1, 5)), "multiply_data": draw(st.sampled_from([0, 0, 1])),
         "conf_center": draw(st.sampled_from([0, 1, 3, 40])), "conf_slope": draw(st.sampled_from([0.35, 1.0, 0.1]))}
    k = 1
    if script not in ("pretrained", "gallager"):
        k = clusters or draw(st.sampled_from([1, 2, 3, 3]))
        a.update(n_clusters=k, classifier_train=draw(st.integers(k, 6)), cluster=draw(st.integers(0, 1)))
    if script == "gallager":
        a.update(ldpciterations=draw(st.integers(1, 15)), multiply_data=0)
    else:
        a.update(dec_type=draw(st.sampled_from(["BP", "MS"])), processes=draw(st.sampled_from([1, 1, 2])),
                 msg_delay=draw(st.sampled_from(["50000", "50000", "20000"])))
    if script != "mavlink":
        a["ent_threshold"] = draw(st.sampled_from([0.36, 0.05, 0.8]))
        if script != "gallager":
            a["clipping_factor"] = draw(st.integers(1, 3))
    if script != "dude":
        a["window_len"] = draw(st.sampled_from([0, 1, 2, 50]))
    if script in ("entropy", "dude", "pretrained", "awgn", "gallager"):
        a["model_length"] = draw(st.sampled_from(["info", "all"]))
    if script == "dude":
        a["context_length"] = draw(st.integers(1, 3))
    if script in ("mavlink", "combined"):
        a.update(learn=draw(st.integers(0, 1)), valid_factor=draw(st.sampled_from([2.0, 1.5])),
                 invalid_factor=draw(st.sampled_from([0.7, 0.2])), valid_threshold=draw(st.sampled_from([0.03, 0.5])),
                 invalid_threshold=draw(st.sampled_from([0.08, 0.4])))
    if script == "mavlink" and not a["learn"]:
        a["segiterations"] = draw(st.sampled_from([1, 1, 2]))
    if script == "combined":
        a["flip"] = draw(st.integers(0, 1))
    gauss = script == "awgn"
    if script == "entropy" and draw(st.booleans()):
        a["channel_type"] = draw(st.sampled_from(["awgn", "bsc"]))
        gauss = a["channel_type"] == "awgn"
        a["dec_type"] = draw(st.sampled_from(["BF", "BF", "BP", "MS"]))
        if a["dec_type"] == "BF":
            a["wbf_variant"] = draw(st.integers(1, 2))
            a["ldpciterations"] = draw(st.integers(1, 30))
    if script == "awgn":
        lo, hi = sorted(draw(st.tuples(*[st.sampled_from([-2.0, 0.5, 1.0, 2.5, 6.0])] * 2)))
        a.update(min_ebno=lo, max_ebno=hi, n_points=draw(st.integers(1, 2)), delta=draw(st.sampled_from([2.0, 1.0])),
                 snr_scale="db")
        if lo > 0 and draw(st.booleans()):
            a["snr_scale"] = "linear"
    elif gauss:
        lo, hi = sorted(draw(st.tuples(*[st.sampled_from([-2.0, 0.5, 1.0, 2.5, 6.0])] * 2)))
        a.update(minflip=lo, maxflip=hi, nflips=draw(st.integers(1, 2)))
    else:
        lo, hi = sorted(draw(st.tuples(*[st.sampled_from([0.0001, 0.002, 0.01, 0.03, 0.05, 0.07])] * 2)))
        a.update(minflip=lo, maxflip=hi, nflips=draw(st.integers(1, 2)))
    a["N"] = draw(st.sampled_from([2, 3, 1] if k > 1 else [2, 3, 4, 6, 1]))
    case = {"script": script, "args": a, "offset": draw(st.integers(0, 100)), "seed": draw(st.integers(0, 2 ** 16)),
            "again": draw(st.sampled_from([0, 0, 1]))}
    if script == "pretrained":
        case["wrong"] = draw(st.sampled_from([0, 0, 1]))  # whether the model is that of another source
    return case


def grid():
    """every script with every number of clusters, clustering and learning switch"""
    out = []
    base = {"ldpciterations": 3, "multiply_data": 0, "conf_center": 1, "conf_slope": 1.0}
    for script in SCRIPTS:
        for k in ([1] if script in ("pretrained", "gallager") else [1, 2, 3]):
            for cluster in ([0] if script in ("pretrained", "gallager") else [0, 1]):
                a = dict(base, N=3 if k == 1 else 2, model_length="all")
                if script not in ("pretrained", "gallager"):
                    a.update(n_clusters=k, cluster=cluster, classifier_train=k + 1)
                if script == "awgn":
                    a.update(min_ebno=0.5, max_ebno=2.0, n_points=2, snr_scale=["db", "linear"][cluster], delta=[2.0, 1.0, 0.5][k - 1])
                else:
                    a.update(minflip=0.01, maxflip=0.06, nflips=2)
                if script != "gallager":
                    a.update(processes=1 + cluster, dec_type="MS" if k == 2 else "BP")
                if script in ("mavlink", "combined"):
                    a.update(learn=(k + cluster) % 2)
                    del a["model_length"]
                if script in ("combined",):
                    a.update(flip=cluster)
                turn = len(out)  # other settings take turns
                if script != "dude":
                    a["window_len"] = [50, 1, 0, 2][turn % 4]
                if script not in ("mavlink", "gallager"):
                    a["clipping_factor"] = [1, 2, 3][turn % 3]
                if script != "mavlink":
                    a["ent_threshold"] = [0.8, 0.36][turn % 2]
                if script in ("mavlink", "combined"):
                    a.update(valid_threshold=[0.03, 0.5][k % 2], invalid_threshold=[0.2, 0.4][turn % 2],
                             valid_factor=[2.0, 1.5][turn % 2], invalid_factor=[0.7, 0.2][k % 2])
                if script == "mavlink" and not a["learn"]:
                    a["segiterations"] = 2 if k > 1 else 1
                if script == "dude":
                    a["context_length"] = k
                if script != "gallager":
                    a["multiply_data"] = int(k == 1 and cluster == 1 or script == "pretrained")
                    a["msg_delay"] = ["50000", "20000"][(turn // 2) % 2]
                out.append({"script": script, "args": a, "offset": 7 * k, "seed": 11 * k + cluster,
                            "again": int(k != 2 and cluster == 0)})
    for k, kind, dec in ((1, "awgn", "BP"), (2, "awgn", "BF"), (3, "bsc", "BF"), (1, "bsc", "BF")):
        a = dict(base, N=2, model_length="all", n_clusters=k, cluster=1, classifier_train=k + 1, processes=1, dec_type=dec,
                 channel_type=kind, nflips=2, wbf_variant=2 if k == 2 else 1)
        a.update(dict(minflip=0.5, maxflip=5.0) if kind == "awgn" else dict(minflip=0.002, maxflip=0.02))
        out.append({"script": "entropy", "args": a, "offset": 20 + k, "seed": 5 * k, "again": int(k == 2)})
    out.append({"script": "pretrained", "args": dict(base, N=3, minflip=0.0005, maxflip=0.01, nflips=2, processes=1), "offset": 2,
                "seed": 1, "again": 0, "wrong": 1})
    order = {"combined": 0, "gallager": 1, "mavlink": 2}  # the long ones first
    return sorted(out, key=lambda c: (order.get(c["script"], 9), c["args"].get("n_clusters", 1)))


def launch(case, scratch, argv, path=None, seed=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR=scratch)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        env[v] = "1"
    path = path or os.path.join(HC, PATHS[case["script"]])
    with open(os.path.join(scratch, "out.txt"), "wb") as out:
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(VERIF, "vlib", "simrun.py"), str(case["seed"] if seed is None else seed), path] + argv,
                             cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True)
        try:
            code = p.wait()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)  # workers of the simulation as well
            except ProcessLookupError:
                pass
            p.wait()
    if code:
        with open(os.path.join(scratch, "out.txt"), errors="replace") as f:
            lines = [x for x in f.read().splitlines() if x.strip()]
        check(False, "%s %s: exit code %d: %s", os.path.basename(path), " ".join(argv), code, lines[-1] if lines else "")


def prepare(case, scratch):
    data = os.path.join(scratch, "data")
    os.mkdir(data)
    os.mkdir(os.path.join(scratch, "results"))
    with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
        pickle.dump({k: [{"timestamp": i, "bin": b} for i, b in enumerate(v[case["offset"]:case["offset"] + 12])]
                     for k, v in recording().items() if k in ("20000", "50000")}, f)
    shutil.copy(os.path.join(HC, "data", "model_2018_all.json"), data)
    with open(os.path.join(data, "encoded_data_data_model_1_clusters.json"), "w") as f:
        json.dump(pretrained(case).tolist(), f)


def understood(case, argv, prepare=prepare, path=None):
    """the arguments the script reads from its command line; None if it does not read them with argparse"""
    scratch = tempfile.mkdtemp(prefix="verif_c27_")
    try:
        prepare(case, scratch)
        launch(case, scratch, argv, path, seed="arguments")
        path = os.path.join(scratch, "arguments.pickle")
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simulate(case, argv):
    """run the script in a directory of its own; returns (steps, summary, recorded command, summary from the mat file)"""
    scratch = tempfile.mkdtemp(prefix="verif_c27_")
    try:
        prepare(case, scratch)
        launch(case, scratch, argv)
        cmds = glob.glob(os.path.join(scratch, "results", "*", "cmd.txt"))
        check(len(cmds) == 1, "%d result folders with a recorded command", len(cmds))
        folder = os.path.dirname(cmds[0])
        with open(cmds[0]) as f:
            command = f.read()
        summaries = glob.glob(os.path.join(folder, "*summary*.pickle"))
        check(len(summaries) == 1, "%d summaries", len(summaries))
        with open(summaries[0], "rb") as f:
            summary = pickle.load(f)
        mats = glob.glob(os.path.join(folder, "*summary*.mat"))
        check(len(mats) == 1, "%d summaries for MATLAB", len(mats))
        mat = loadmat(mats[0])
        singles = {}
        for path in glob.glob(os.path.join(scratch, "*_simulation_*.pickle")) + glob.glob(
                os.path.join(scratch, "results", "*_simulation_*.pickle")):
            m = re.search(r"_(-?[0-9.]+(?:e-?[0-9]+)?)_simulation", os.path.basename(path))
            if m:
                with open(path, "rb") as f:
                    singles[float(m.group(1))] = pickle.load(f)
        heard = []
        for path in glob.glob(os.path.join(scratch, "heard_*.pickle")):
            groups = {}
            with open(path, "rb") as f:
                while f.peek(1):
                    number, values = pickle.load(f)
                    groups.setdefault(number, []).append(values)
            heard.extend(groups.values())
        packed = glob.glob(os.path.join(folder, "*.xz"))
        if packed:
            with lzma.open(packed[0], "rb") as f:
                steps = pickle.load(f)
        else:
            steps = [singles[p] for p in sorted(singles)]
        return steps, summary, command, mat, singles, heard
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def gaussian(case):
    return case["script"] in ("awgn", "bf") or case["args"].get("channel_type") == "awgn"


def flip(case, p):
    """bit flip probability which the model of a point assumes, and that of the channel"""
    a = case["args"]
    if not gaussian(case):
        return p, p
    snr = p if a.get("snr_scale", "db") == "linear" else 10 ** (p / 10)
    return 0.5 * erfc(np.sqrt(snr * (a.get("delta", 2.0) if case["script"] == "awgn" else 1))), 0.5 * erfc(np.sqrt(snr))


def points(case):
    a = case["args"]
    if case["script"] == "awgn":
        return np.linspace(a["min_ebno"], a["max_ebno"], num=a["n_points"])
    return np.linspace(a["minflip"], a["maxflip"], num=a["nflips"])


def limit(case, p):
    """iterations allowed at a point with flip probability p"""
    n = case["args"]["ldpciterations"]
    return max(n, int(3 * p * encoder(1).n)) if case["script"] == "bf" else n


def flipping(variant, iterations):
    """a bit flipping decoder; it takes long to make, and keeps nothing from word to word"""
    if variant not in _cache:
        enc = encoder(1)
        _cache[variant] = WbfDecoder(h=enc.h, max_iter=1, decoder_variant=WbfVariant(BF[variant]), info_idx=np.arange(enc.n) < enc.k)
    _cache[variant].max_iter = iterations
    return _cache[variant]


def layouts(case, buffers):
    bs = BufferSegmentation(meta.protocol_parser)
    last = Bits(bytes=buffers[-1])
    return [bs.segment_buffer(last[i:j].tobytes())[2] for i, j in PARTS[case["args"]["n_clusters"]]]


def build(case, table, p, buffers):
    """the decoder which the run's arguments call for; returns decode(llr, errors) -> tuple"""
    a, script = case["args"], case["script"]
    if script == "gallager":
        h = encoder(1).h
        m, n = h.shape
        k = n - m
        inner = GalBfDecoder(h=h, max_iter=a["ldpciterations"], info_idx=np.arange(n) < k)
        if table == "galbf":
            return lambda llr, err: inner.decode(llr)
        d = ClassifyingEntropyDecoder(
            inner, model_length=k if a["model_length"] == "info" else n,
            entropy_threshold=a.get("ent_threshold", 0.36) / (5 if table.endswith("forcing") else 1), clipping_factor=0,
            classifier_training=0, n_clusters=1, window_length=a.get("window_len", 100) or None, conf_center=a["conf_center"],
            conf_slope=a["conf_slope"], bit_flip=p, cluster=0, reliability_method=3 if table.endswith("forcing") else 0)
        return lambda llr, err: d.decode_buffer(llr)
    if script == "bf":
        enc = encoder(1)
        if table == "ms":
            inner = DecoderWiFi(spec=SPECS[1], max_iter=20, decoder_type="MS")
        else:
            inner = flipping(table.replace("entropy_", ""), limit(case, p))
        if not table.startswith("entropy"):
            return lambda llr, err: inner.decode(llr)
        d = ClassifyingEntropyDecoder(
            inner, model_length=enc.k if a["model_length"] == "info" else enc.n, entropy_threshold=a["ent_threshold"], clipping_factor=0,
            classifier_training=0, n_clusters=1, window_length=a["window_len"] or None, conf_center=a["conf_center"],
            conf_slope=a["conf_slope"], bit_flip=p, cluster=0, reliability_method=0)
        return lambda llr, err: d.decode_buffer(llr)
    clusters = a.get("n_clusters", 1)
    enc = encoder(clusters)
    iterations = a["ldpciterations"]
    if a.get("dec_type") == "BF":
        inner = WbfDecoder(h=enc.h, max_iter=iterations, decoder_variant=WbfVariant(a["wbf_variant"]),
                           info_idx=np.arange(enc.n) < enc.k)
    else:
        inner = DecoderWiFi(spec=SPECS[clusters], max_iter=iterations * (a.get("segiterations", 1) if table == "ldpc" else 1),
                            decoder_type=a.get("dec_type", "BP"))
    if table == "ldpc":
        return lambda llr, err: inner.decode(llr)
    window = a.get("window_len", 50) or None
    train = 0 if clusters == 1 else a.get("classifier_train", 100)
    model = enc.n if script == "combined" or a.get("model_length", "info") == "all" else enc.k
    conf = dict(conf_center=a["conf_center"], conf_slope=a["conf_slope"])
    thr, clip = a.get("ent_threshold", 0.36), a.get("clipping_factor", 2)
    if table in ("entropy", "pre_trained"):
        extra = dict(cluster=a.get("cluster", 1), **conf)
        if a.get("dec_type") == "BF":
            extra["reliability_method"] = 0
        if script == "pretrained":
            extra = dict(cluster=0, **conf)
        if table == "pre_trained":
            extra = dict(cluster=0, data_model=pretrained(case))
        d = ClassifyingEntropyDecoder(inner, model_length=model, entropy_threshold=thr, clipping_factor=clip,
                                      classifier_training=train, n_clusters=clusters, window_length=window, bit_flip=p, **extra)
        return lambda llr, err: d.decode_buffer(llr)
    if table == "dude":
        d = ClassifyingDudeDecoder(inner, model_length=model, clipping_factor=clip, classifier_training=train,
                                   n_clusters=clusters, context_length=a.get("context_length", 8), bit_flip=p,
                                   cluster=a.get("cluster", 1), entropy_threshold=thr, **conf)
        return lambda llr, err: d.decode_buffer(llr)
    fields = None if a.get("learn") else BufferModel.load(os.path.join(HC, "data", "model_2018_all.json"))
    vt, it, vf, xf = (a.get("valid_threshold", 0.03), a.get("invalid_threshold", 0.08), a.get("valid_factor", 2.0),
                      a.get("invalid_factor", 0.7))
    if table == "nr":
        d = CombinedUnifiedDecoder(inner, model_length=model, valid_thr=vt, invalid_thr=it, n_clusters=clusters, valid_factor=vf,
                                   invalid_factor=xf, entropy_threshold=thr, clipping_factor=clip, classifier_training_size=train,
                                   cluster=bool(a["cluster"]), window_length=window, data_model=fields, debug=True, bit_flip=p,
                                   flip=bool(a.get("flip", 0)), **conf)
    else:
        d = MavlinkRectifyingDecoder(inner, model, vt, it, clusters, vf, xf, train, bool(a["cluster"]), window, fields,
                                     a["conf_center"], a["conf_slope"],
                                     segmentation_iterations=a.get("segiterations", 1) if script == "mavlink" else 1)
    if script == "combined" or not a["cluster"]:
        d.set_buffer_structures(layouts(case, buffers))
    return lambda llr, err: d.decode_buffer(llr, err)


def noisy(values, words, p):
    """whether values are words with noise of the strength which p decibels stand for"""
    noise = (np.array(values) - (1 - 2 * words)) / np.sqrt(0.5 / 10 ** (p / 10))
    return abs(noise.mean()) < 6 / math.sqrt(noise.size) and abs(noise.std() - 1) < 6 / math.sqrt(noise.size)


@contextlib.contextmanager
def steady():
    """bit flipping takes the first of equally reliable bits"""
    choice = np.random.choice
    np.random.choice = lambda a: a[0]
    try:
        yield
    finally:
        np.random.choice = choice


def received(case, i, p, heard, words, rx, step):
    """what the plain decoder was given at a point: among the streams of values heard, one which has the hard decisions saved and
    decodes to what was saved"""
    plain = "wbf" if case["script"] == "bf" else "ldpc"
    saved = step["decoded_" + plain]
    for stream in heard:
        for first in range(len(stream) - len(rx) + 1):  # a decoder may serve several points
            values = stream[first:first + len(rx)]
            if case["script"] == "bf" and not noisy(values, words, points(case)[i]):
                continue  # those of another decoder
            if all(len(v) == len(r) and np.array_equal(v < 0, r == 1) for v, r in zip(values, rx)):
                decode = build(case, plain, p, None)
                with steady():
                    same_words = all(np.array_equal(decode(v, None)[0], e) for v, e in zip(values, saved["estimate"]))
                if same_words:
                    return values
    check(False, "point %d: the words of the plain decoder are not those of a decoder with the arguments of the run for the values "
          "received", i)


def run(case, info):
    a, script = case["args"], case["script"]
    argv = [x for k, v in a.items() for x in ("--" + k, str(v))]
    steps, summary, command, mat, singles, heard = simulate(case, argv)
    clusters = a.get("n_clusters", 1)
    enc = encoder(clusters)
    buffers = recording()[a.get("msg_delay", "50000")][case["offset"]:case["offset"] + a["N"]]
    want = [np.array(Bits(bytes=b)[i:j], dtype=np.int_) for b in buffers for i, j in PARTS[clusters]]
    want = want * 2 ** a["multiply_data"]
    ps = points(case)
    check(len(steps) == len(ps), "%d results for %d points", len(steps), len(ps))
    sent = None
    failed = 0
    for i, (p, step) in enumerate(zip(ps, steps)):
        data = step["data"]
        check(len(data["encoded"]) == len(want) == step["number_of_buffers"], "point %d: %d words saved and %d counted, %d expected", i,
              len(data["encoded"]), step["number_of_buffers"], len(want))
        check(step["buffer_len"] == enc.n and step["max_ldpc_iterations"] == limit(case, flip(case, p)[0]),
              "point %d: words of %s bits and %s iterations reported", i, step["buffer_len"], step["max_ldpc_iterations"])
        words = np.array([np.array(w, dtype=np.int_) for w in data["encoded"]])
        rx = np.array([np.array(w, dtype=np.int_) for w in data["corrupted"]])
        check(words.shape == rx.shape == (len(want), enc.n), "point %d: words of shape %s and %s", i, words.shape, rx.shape)
        check(not np.any(words @ enc.h.T % 2), "point %d: a word which was sent is no codeword", i)
        for j, x in enumerate(want):
            check(np.array_equal(words[j][:len(x)], x), "point %d: word %d does not carry the data recorded", i, j)
        check(sent is None or np.array_equal(words, sent), "point %d: other words are sent than at the first point", i)
        sent = words
        wrong = words != rx
        for j in range(len(want)):
            e = np.asarray(data["error_idx"][j])
            if gaussian(case):
                check(np.array_equal(e.astype(bool), wrong[j]), "point %d: word %d: errors reported are not those of the word", i, j)
            else:
                check(len(set(e.tolist())) == len(e) and np.array_equal(np.sort(e), np.flatnonzero(wrong[j])),
                      "point %d: word %d: errors reported are not those of the word", i, j)
                check(len(e) == int(enc.n * p), "point %d: word %d has %d errors at probability %s", i, j, len(e), p)
            check(data["info_errors"][j] == wrong[j, :enc.k].sum() and data["parity_errors"][j] == wrong[j, enc.k:].sum(),
                  "point %d: word %d: %s errors in information and %s in parity bits reported, %d and %d present", i, j,
                  data["info_errors"][j], data["parity_errors"][j], wrong[j, :enc.k].sum(), wrong[j, enc.k:].sum())
        raw = step["mean_raw_ber" if script == "awgn" else "raw_ber"]
        check(math.isclose(raw, wrong.mean(), abs_tol=1e-12), "point %d: raw bit error rate %s, is %s", i, raw, wrong.mean())
        q, chance = flip(case, p)
        if gaussian(case):
            spread = math.sqrt(chance * (1 - chance) / wrong.size)
            check(abs(wrong.mean() - chance) < 7 * spread + 8 / wrong.size, "point %d: raw bit error rate %s, the channel has %s", i,
                  wrong.mean(), chance)
            values = received(case, i, q, heard, words, rx, step)
            if script == "bf":
                soft = [awgn_llr(sigma=np.sqrt(0.5 / 10 ** (p / 10)))(v) for v in values]
        else:
            values = [bsc_llr(p=p)(r) for r in rx]
        if script != "awgn":
            check(math.isclose(summary["raw_ber"][i], raw, abs_tol=1e-12), "point %d: raw bit error rate in the summary", i)
        for table in TABLES[script]:
            t = step["decoded_" + table]
            est = np.array([np.array(e, dtype=np.int_) for e in t["estimate"]])
            dist = (est != words).sum(axis=1)
            check(np.array_equal(np.asarray(t["hamming"], dtype=np.int_), dist), "point %d, %s: distances %s saved, are %s", i, table,
                  list(t["hamming"]), dist)
            rate, ber, in_rate, in_ber = figures(table)
            check(math.isclose(step[rate], (dist == 0).mean(), abs_tol=1e-12), "point %d, %s: success rate %s, is %s", i, table,
                  step[rate], (dist == 0).mean())
            check(math.isclose(step[ber], (est != words).mean(), abs_tol=1e-12), "point %d, %s: bit error rate %s, is %s", i, table,
                  step[ber], (est != words).mean())
            for name, x in ((in_rate, step[rate]), (in_ber, step[ber])):
                check(len(summary[name]) == len(ps) and math.isclose(summary[name][i], x, abs_tol=1e-12),
                      "point %d: %s is %s in the summary and %s in the results", i, name, summary[name][i], x)
                check(name in mat and np.allclose(np.ravel(mat[name]), summary[name], atol=1e-12), "%s differs between summaries", name)
            failed += int(np.any(dist > 0))
            decode = build(case, table, q, buffers)
            for j in range(len(want)):
                with steady():
                    got = decode(soft[j] if table == "ms" else values[j], np.asarray(data["error_idx"][j]))
                check(np.array_equal(got[0], est[j]), "point %d, %s: word %d is decoded differently by a decoder with the "
                      "arguments of the run", i, table, j)
                if "llr" in t:
                    bad = rest(t, table, j, got)
                    check(bad is None, "point %d, %s: word %d: %s is not that of a decoder with the arguments of the run", i, table, j, bad)
                    x, y = np.asarray(t["llr"][j], dtype=float), np.asarray(got[1], dtype=float)
                    check(same(x, y), "point %d, %s: word %d: reliabilities are not those of a decoder with the arguments of the run",
                          i, table, j)
                    got = (got[0],) + tuple(got[2:])
                if "decode_success" in t:
                    check(bool(t["decode_success"][j]) == bool(got[1]) and t["iterations"][j] == got[2],
                          "point %d, %s: word %d: success or iterations are not those of a decoder with the arguments of the run", i,
                          table, j)
    if singles and len(set(ps.tolist())) == len(ps):
        check(len(singles) == len(ps), "%d points saved one by one, %d asked for", len(singles), len(ps))
        keys = [k for k in steps[0] if np.isscalar(steps[0][k])]
        for i, (p, step) in enumerate(zip(ps, steps)):
            name = flip(case, p)[0] if script in ("entropy", "bf") else p
            found = [x for y, x in singles.items() if math.isclose(y, name, rel_tol=1e-9)]
            check(len(found) == 1, "point %d: %d results saved one by one", i, len(found))
            for k in keys:
                check(k in found[0] and found[0][k] == step[k], "point %d: %s differs between the saved results", i, k)
    if script in ("entropy", "bf") and gaussian(case):
        check(np.allclose(summary["snr_db"], ps) and np.allclose(summary["snr_linear"], [10 ** (p / 10) for p in ps]),
              "signal to noise ratios %s in the summary", summary["snr_db"])
    if script == "awgn":
        check(np.allclose(summary["snr"], ps), "signal to noise ratios %s in the summary", summary["snr"])
    given = vars(summary["args"])
    for k, v in a.items():
        x = 0 if k == "classifier_train" and clusters == 1 else v
        check(k in given and given[k] == x, "argument %s is %s, saved as %s", k, v, given.get(k))
    tokens = shlex.split(command)
    check(len(tokens) > 2 and os.path.basename(tokens[1]) == PATHS[script], "recorded command %s", command)
    read = None if case["again"] else understood(case, tokens[2:])
    if read:
        check(not read[1], "the recorded command has %s left over", read[1])
        for k, v in read[0].items():
            check(k not in given or given[k] == v, "the recorded command sets %s to %s, the run had %s", k, v, given.get(k))
    if case["again"]:
        steps2, summary2 = simulate(case, tokens[2:])[:2]
        for k, v in vars(summary2["args"]).items():
            check(given.get(k) == v, "the recorded command sets %s to %s, the run had %s", k, v, given.get(k))
        check(len(steps2) == len(steps) and all(x["number_of_buffers"] == y["number_of_buffers"] and np.array_equal(
            np.array([np.array(w, dtype=int) for w in x["data"]["encoded"]]), np.array([np.array(w, dtype=int) for w in y["data"]["encoded"]]))
            for x, y in zip(steps, steps2)), "the recorded command does not repeat the run")
        info.label("repeated")
    info.label(script, "%d clusters" % clusters, *(["failures"] if failed else []))
    info.mark(len(want) > 1)


def subs():
    return [Exhaustive("grid", grid, run, "every simulation with 1, 2 and 3 clusters, clustering on and off; all have several words",
                       spread=True, patience=3),
            Sub("runs", cases, run, "simulations with generated arguments; non-trivial with more than one word", 24, 1200, patience=3)]
