"""C29: the scripts which prepare data make of recordings, logs and results what these contain"""
import contextlib
import datetime
import io
import json
import os
import pickle
import runpy
import shutil
import struct
import sys
import tempfile
import numpy as np
from argparse import Namespace
from bitstring import Bits
from hypothesis import strategies as st
from scipy.io import loadmat, savemat
import matplotlib.pyplot as plt
from ldpc.encoder import EncoderWiFi
from vlib.core import REPO, Sub, check
from vlib.gens import DIALECT
from vlib.mavref import TYPE_FMT
from checks.c27 import PARTS, SPECS, encoder
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta

ASSUMPTIONS = ["scripts are run as they are, in a scratch directory, on generated recordings; every sensor is recorded up to the end of "
               "the mission", "acquisitions in logs do not contain the marker which separates acquisitions"]
RUNS = os.path.join(REPO, "runs")


@contextlib.contextmanager
def scratch(sub=""):
    """a directory which is the current one for a while"""
    path = tempfile.mkdtemp(prefix="verif_c29_")
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(path, sub), exist_ok=True)
        os.chdir(os.path.join(path, sub))
        yield path
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(path, ignore_errors=True)


def script(path, argv=()):
    saved = sys.argv
    sys.argv = [path] + list(argv)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = saved


# --- sensor recording to telemetry buffers

# name in the recording, cell in which it lies, message, fields in the order of the recording
SENSORS = [("global_position_int", 1, 33, ["time_boot_ms", "lat", "lon", "alt", "relative_alt", "bottom_clearnce", "depth", "vx", "vy",
                                           "vz", "hdg"]),
           ("pinger_data", 0, 234, ["time_boot_ms", "range", "azimuth"]),
           ("attitude", 1, 30, ["time_boot_ms", "roll", "pitch", "yaw", "rollspeed", "pitchspeed", "yawspeed"]),
           ("svs_status", 0, 212, ["time_boot_ms", "Speed_of_Sound", "Depth", "Reserved", "Temperature", "Status"]),
           ("chamber_status", 0, 218, ["time_boot_ms", "temperature", "humidity", "chamber_num", "pressure"])]
KEYS = ["position", "pinger_data", "attitude", "svs", "chamber_status"]
LAST = 16521
DELAYS = [20000, 50000, 100000, 200000, 300000]
RANGES = {"B": (0, 256), "b": (-128, 128), "H": (0, 2 ** 16), "h": (-2 ** 15, 2 ** 15), "I": (0, 2 ** 32), "i": (-2 ** 31, 2 ** 31)}


@st.composite
def missions(draw):
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)), "start": draw(st.integers(0, 2 ** 31)), "step": draw(st.integers(20, 160)),
            "paces": [draw(st.sampled_from([1.0, 0.3, 3.0, 40.0])) for _ in range(4)]}


def sensors(case):
    rng = np.random.default_rng(case["seed"])
    out = {}
    t = case["start"] + np.concatenate([[0], np.cumsum(rng.integers(1, 2 * case["step"], LAST + 40))])
    end = t[-1]
    for i, (name, _, mid, fields) in enumerate(SENSORS):
        if i:
            pace = case["step"] * case["paces"][i - 1]
            n = int((end - case["start"]) / pace) + 10
            stamps = case["start"] + np.cumsum(rng.integers(1, max(2, int(2 * pace)), n)) - rng.integers(0, 50)
            if stamps[-1] <= end:
                stamps = np.append(stamps, end + 1)
            stamps = np.maximum(stamps, 0)
        else:
            stamps = t
        types = {f.name: TYPE_FMT[f.type] for f in DIALECT.messages[mid].fields}
        columns = [stamps.astype(np.uint32)]
        for f in fields[1:]:
            c = types[f]
            if c in "fd":
                columns.append(rng.normal(scale=10.0 ** rng.integers(-2, 4), size=len(stamps)).astype(np.float32))
            else:
                columns.append(rng.integers(*RANGES[c], size=len(stamps)).astype(c))
        out[name] = columns
    return out


def run_mission(case, info):
    data = sensors(case)
    mat = {}
    for name, cell, _, fields in SENSORS:
        rec = np.empty((1, 1), dtype=[(f, object) for f in fields])
        for f, x in zip(fields, data[name]):
            rec[f][0, 0] = x.reshape(-1, 1)
        cells = np.empty((1, 2), dtype=object)
        cells[0, cell] = rec
        cells[0, 1 - cell] = np.zeros((1, 1))
        mat[name] = cells
    with scratch():
        savemat("20_08_2018_13_12_11.mat", mat)
        script(os.path.join(RUNS, "HC_eilat_July_2018", "data", "msg_creator.py"))
        with open("hc_to_ship.pickle", "rb") as f:
            made = pickle.load(f)
        saved = loadmat("binary_buffers.mat")
    check(sorted(made) == sorted(str(d) for d in DELAYS), "recordings with the delays %s", sorted(made))
    first, last = int(data["global_position_int"][0][0]), int(data["global_position_int"][0][LAST])
    seq = None
    total = 0
    for delay, name in zip(DELAYS, ["two", "five", "ten", "twenty", "thirty"]):
        rows = made[str(delay)]
        times = list(range(first, last, delay))
        check([int(r["timestamp"]) for r in rows] == times, "delay %d: sampled at other times than every %d up to the end", delay, delay)
        table = saved[name + "_sec_delay_binary"]
        check(len(table) == len(rows), "delay %d: %d buffers in the table, %d in the recording", delay, len(table), len(rows))
        for r, t, b in zip(rows, times, table):
            want = b""
            got = bytes(r["bin"])
            for (sensor, _, mid, fields), key in zip(SENSORS, KEYS):
                columns = data[sensor]
                i = int(np.flatnonzero(columns[0].astype(np.int64) >= t)[0])
                m = DIALECT.messages[mid]
                values = {f: x[i] for f, x in zip(fields, columns)}
                payload = b"".join(struct.pack("<" + TYPE_FMT[f.type], values[f.name].item()) for f in m.wire)
                if seq is None:
                    seq = got[2]
                want += m.frame(payload, seq, 1, 1)
                seq = (seq + 1) % 256
                check(all(getattr(r[key], f) == v for f, v in values.items()), "delay %d, time %d: message %s is not that of the first "
                      "sample at or after this time", delay, t, key)
            check(got == want, "delay %d, time %d: buffer %s, should be %s", delay, t, got.hex(), want.hex())
            check(bytes(np.asarray(b, dtype=np.uint8)) == want, "delay %d, time %d: the buffer in the table is another", delay, t)
            total += 1
    info.mark(total > 20)


# --- bit frequencies of a recording

@st.composite
def estimates(draw):
    return {"clusters": draw(st.sampled_from([1, 2, 3])), "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(st.one_of(st.integers(1, 40), st.sampled_from([2, 9, 90, 270]))),
            "p": draw(st.sampled_from([0.5, 0.02, 0.98])), "fixed": draw(st.integers(0, 1))}


def run_estimate(case, info):
    rng = np.random.default_rng(case["seed"])
    n, k = case["n"], case["clusters"]
    buffers = (rng.random((n, 1224)) < case["p"]).astype(np.uint8)
    if case["fixed"]:
        buffers[:, 100:700] = buffers[0, 100:700]
    rows = {"20000": [{"bin": np.packbits(b).tobytes()} for b in buffers], "50000": [{"bin": bytes(153)}]}
    words = []
    enc = encoder(k)
    wrapped = EncoderWiFi.encode

    def encode(self, *args, **kwargs):
        w = wrapped(self, *args, **kwargs)
        words.append(np.array(w, dtype=int))
        return w
    with scratch("scripts") as base:
        data = os.path.join(base, "runs", "HC_eilat_July_2018", "data")
        os.makedirs(data)
        with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
            pickle.dump(rows, f)
        EncoderWiFi.encode = encode
        try:
            script(os.path.join(REPO, "scripts", "train_estimator.py"), ["--n_clusters", str(k)])
        finally:
            EncoderWiFi.encode = wrapped
        with open(os.path.join(data, "encoded_data_data_model_%d_clusters.json" % k)) as f:
            dist = np.array(json.load(f))
    check(dist.shape == (enc.n, 2), "model of shape %s for words of %d bits", dist.shape, enc.n)
    check(np.allclose(dist.sum(axis=1), 1, atol=1e-12) and dist.min() >= 0, "no distributions")
    parts = [b[i:j] for b in buffers for i, j in PARTS[k]]
    short = min(len(x) for x in parts)
    freq = np.mean([x[:short] for x in parts], axis=0)
    check(np.allclose(dist[:short, 1], freq, atol=1e-12), "frequencies of ones are not those of the recording")
    check(len(words) == len(parts) and not np.any(np.array(words) @ enc.h.T % 2), "%d words for %d parts, or no codewords", len(words),
          len(parts))
    check(np.allclose(dist[:, 1], np.mean(words, axis=0), atol=1e-12), "frequencies of ones are not those of the codewords")
    info.label("%d clusters" % k)
    info.mark(n > 1)


# --- field model of a recording

@st.composite
def recordings(draw):
    year = draw(st.sampled_from([2022, 2023]))
    rows = [draw(st.lists(st.sampled_from(["ok", "ok", "ok", "unknown", "marker", "crc"]), min_size=2, max_size=6)) for _ in range(2)]
    rows[0][0] = "ok"
    return {"year": year, "rows": rows, "seed": draw(st.integers(0, 2 ** 32 - 1))}


def run_recording(case, info):
    rng = np.random.default_rng(case["seed"])
    year = case["year"]
    names = ["feb_14_tx", "feb_16_tx"] if year == 2022 else ["feb_17_tx_telemetry", "feb_18_tx_telemetry"]
    ids = [33, 234, 212, 218]
    kept = []
    layout = None
    with scratch():
        os.mkdir("data")
        for name, rows in zip(names, case["rows"]):
            table = []
            for kind in rows:
                b = b""
                for m in ids:
                    m = DIALECT.messages[m]
                    payload = b"".join(struct.pack("<f", rng.normal()) if f.type == "float" else rng.bytes(f.size) for f in m.wire)
                    b += m.frame(payload, int(rng.integers(256)), 1, 1)
                b += rng.bytes(123 - len(b))
                if kind == "marker":
                    b = bytes([b[0] ^ 1 << int(rng.integers(8))]) + b[1:]
                elif kind == "crc":
                    b = b[:60] + bytes([b[60] ^ 4]) + b[61:]
                bits = np.concatenate([np.unpackbits(np.frombuffer(b, dtype=np.uint8)), rng.integers(0, 2, 30)])
                if layout is None:
                    layout = BufferSegmentation(meta.protocol_parser).segment_buffer(b)[2]
                if kind in ("ok", "crc"):
                    kept.append(bits[:984])
                table.append(np.full(len(bits), 2) if kind == "unknown" else bits)
            np.savetxt(os.path.join("data", name + ".csv"), table, fmt="%d", delimiter=",")
        script(os.path.join(RUNS, "Feb_%d" % year, "train_buffer_model.py"))
        with open(os.path.join("data", "model_%d.json" % year)) as f:
            got = json.load(f)
        model = BufferModel(window_size=None)
        for bits in kept:
            model.add_buffer(bits, layout)
        model.save("want.json")
        with open("want.json") as f:
            want = json.load(f)
    check(sorted(got["field_models"]) == sorted(want["field_models"]), "fields of the model")
    for name, m in want["field_models"].items():
        x, y = np.array(got["field_models"][name]["samples"], dtype=float), np.array(m["samples"], dtype=float)
        check(np.array_equal(x, y, equal_nan=True), "field %s: samples %s, the recording has %s", name, x, y)
    check(got["window_size"] is None, "the model has a window of %s", got["window_size"])
    info.label(str(year))
    info.mark(len(kept) < sum(len(r) for r in case["rows"]))


# --- log of the ship

@st.composite
def logs(draw):
    texts = st.sampled_from([b"data success: ", b"time: ", b"\r\n", b"data size: ", b"Aquisition", b"data success", b"\x00"])
    payload = st.one_of(st.binary(max_size=140), st.lists(st.one_of(texts, st.binary(max_size=30)), max_size=6).map(b"".join))
    acq = st.fixed_dictionaries({
        "time": st.datetimes(min_value=datetime.datetime(2022, 2, 13), max_value=datetime.datetime(2022, 2, 17)).map(
            lambda d: d.strftime("%d_%m_%Y_%H_%M_%S")),
        "size": st.integers(0, 4098), "success": st.integers(0, 1),
        "payload": payload.filter(lambda b: b"Aquisition " not in b).map(bytes.hex)})
    folders = draw(st.lists(st.datetimes(min_value=datetime.datetime(2021, 12, 1), max_value=datetime.datetime(2022, 11, 1)).map(
        lambda d: d.strftime("%d_%m_%Y_%H_%M_%S")), max_size=4, unique=True))
    return {"folders": [{"name": f, "acq": draw(st.lists(acq, max_size=4)), "deep": draw(st.booleans()), "intro": draw(st.booleans())}
                        for f in folders]}


def run_log(case, info):
    with scratch():
        for f in case["folders"]:
            d = os.path.join("ship_logs", f["name"], *(["modem"] if f["deep"] else []))
            os.makedirs(d)
            with open(os.path.join(d, "17_Rafael_rx.log"), "wb") as out:
                if f["intro"]:
                    out.write(b"modem started\r\n")
                for i, a in enumerate(f["acq"]):
                    out.write(b"Aquisition %d time: %s\r\ndata size: %d\r\ndata success: %d\r\n" % (
                        i, a["time"].encode(), a["size"], a["success"]) + bytes.fromhex(a["payload"]) + b"\r\n")
            with open(os.path.join(d, "17_other.log"), "wb") as out:
                out.write(b"Aquisition 0 time: 14_02_2022_10_00_00\r\ndata size: 1\r\ndata success: 1\r\nx\r\n")
        got = script(os.path.join(RUNS, "Feb_2022", "data", "ship_log_reader.py"))
    want = []
    for f in sorted(case["folders"], key=lambda f: datetime.datetime.strptime(f["name"], "%d_%m_%Y_%H_%M_%S")):
        for a in f["acq"]:
            want.append({"r_time": datetime.datetime.strptime(a["time"], "%d_%m_%Y_%H_%M_%S"), "size": a["size"], "success": a["success"],
                         "payload": (bytes.fromhex(a["payload"]) + b"\r\n")[:123]})
    have = got["acquisitions"]
    check(len(have) == len(want), "%d acquisitions read, the log has %d", len(have), len(want))
    for i, (x, y) in enumerate(zip(have, want)):
        for k, v in y.items():
            check(x[k] == v, "acquisition %d: %s read as %s, the log has %s", i, k, x[k], v)
    for day in (14, 15, 16):
        check(got["acquisitions_%d" % day] == [a for a in have if a["r_time"].day == day], "acquisitions of day %d", day)
    info.mark(sum(len(f["acq"]) for f in case["folders"]) > 1)


# --- results of a broken run

@st.composite
def broken(draw):
    value = st.floats(0, 1, allow_nan=False)
    steps = draw(st.lists(st.fixed_dictionaries({k: value for k in ("raw_ber", "ldpc_decoder_ber", "entropy_decoder_ber",
                                                                    "ldpc_buffer_success_rate", "entropy_buffer_success_rate")}),
                          min_size=1, max_size=5))
    return {"steps": steps, "order": draw(st.permutations(list(range(len(steps))))), "minflip": draw(value), "age": draw(st.sampled_from([1000, 0.01]))}


def run_broken(case, info):
    with scratch("scripts") as base:
        hc = os.path.join(base, "runs", "HC_eilat_July_2018")
        name = "2022-03-20_18_18_6"
        old = os.path.join(hc, "results", name)
        os.makedirs(old)
        with open(os.path.join(old, name + "_summary_entropy_vs_pure_LDPC_weighted_model.pickle"), "wb") as f:
            pickle.dump({"args": Namespace(minflip=case["minflip"], maxflip=0.5, N=7)}, f)
        with open(os.path.join(hc, "notes.txt"), "w") as f:
            f.write("none of the results")
        for i, j in enumerate(case["order"]):  # name and age differ in order
            path = os.path.join(hc, "%d_step.pickle" % j)
            with open(path, "wb") as f:
                pickle.dump(dict(case["steps"][i], number=i), f)
            os.utime(path, (5000 + case["age"] * i,) * 2)
        script(os.path.join(REPO, "scripts", "unify_results.py"))
        new = [d for d in os.listdir(os.path.join(hc, "results")) if d != name]
        check(len(new) == 1, "%d folders of results", len(new))
        new = os.path.join(hc, "results", new[0])
        found = {}
        for f in os.listdir(new):
            if f.endswith(".pickle"):
                with open(os.path.join(new, f), "rb") as g:
                    found["summary" if "summary" in f else "steps"] = pickle.load(g)
    check([s["number"] for s in found["steps"]] == list(range(len(case["steps"]))), "steps %s, in the order of their age they are %d",
          [s["number"] for s in found["steps"]], len(case["steps"]))
    for name, key in (("raw_ber", "raw_ber"), ("ldpc_ber", "ldpc_decoder_ber"), ("entropy_ber", "entropy_decoder_ber"),
                      ("ldpc_buffer_success_rate", "ldpc_buffer_success_rate"),
                      ("entropy_buffer_success_rate", "entropy_buffer_success_rate")):
        check(list(found["summary"][name]) == [s[key] for s in case["steps"]], "%s in the summary", name)
    args = found["summary"]["args"]
    check(args.minflip == case["steps"][0]["raw_ber"] and args.maxflip == 0.5 and args.N == 7, "arguments %s in the summary", args)
    info.mark(len(case["steps"]) > 1)


def subs():
    return [Sub("mission", missions, run_mission, "sensor recordings made into telemetry; non-trivial with more than 20 buffers", 64, 1600, patience=3),
            Sub("estimate", estimates, run_estimate, "bit models trained on recordings; non-trivial with several buffers", 96, 3000),
            Sub("recording", recordings, run_recording, "field models trained on recordings; non-trivial when some words are left out", 240,
                3000),
            Sub("log", logs, run_log, "logs of the ship read; non-trivial with several acquisitions", 2000, 60000),
            Sub("broken", broken, run_broken, "results of broken runs unified; non-trivial with several steps", 96, 3000)]
