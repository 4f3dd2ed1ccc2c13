"""C25: recorded telemetry is encoded completely and in order"""
import importlib
import os
import pickle
import shutil
import tempfile
import numpy as np
from bitstring import Bits
from hypothesis import strategies as st
from vlib.core import Exhaustive, REPO, Sub, check
from ldpc.encoder import EncoderWiFi
from ldpc.wifi_spec_codes import WiFiSpecCode

encoding = importlib.import_module("runs.HC_eilat_July_2018.ecncoding_data")
ASSUMPTIONS = ["recordings are read from a scratch directory", "the channel encoder is a stand-in of generated size, or one of "
               "the real WiFi codes, which carry the information bits first"]
SPECS = [WiFiSpecCode.N648_R12, WiFiSpecCode.N648_R56, WiFiSpecCode.N1944_R23]
_encoders = {}


class StubEncoder:
    """takes exactly k bits and marks them as encoded"""
    def __init__(self, k):
        self.k = k
        self.n = k + 3

    def encode(self, bits):
        check(len(bits) == self.k, "asked to encode %d bits instead of %d", len(bits), self.k)
        return np.array([int(b) for b in bits] + [1, 0, 1])


@st.composite
def cases(draw):
    spec = draw(st.sampled_from([None, None, None, None, None, None, None, 0, 1, 2]))
    k = [324, 540, 1296][spec] if spec is not None else draw(st.one_of(st.integers(1, 90), st.integers(1, 12).map(lambda i: 8 * i)))
    sizes = st.one_of(st.integers(1, 60), st.integers(1, 4).map(lambda i: max(1, i * k // 8)))
    buffers = [draw(st.binary(min_size=s, max_size=s)).hex() for s in draw(st.lists(sizes, max_size=5))]
    if buffers and draw(st.booleans()):  # the same buffer may be sent again
        buffers.insert(draw(st.integers(0, len(buffers))), draw(st.sampled_from(buffers)))
    return {"k": k, "spec": spec, "buffers": buffers, "stamps": draw(st.sampled_from(["up", "same", "down"]))}


def encoder_of(case):
    if case["spec"] is None:
        return StubEncoder(case["k"])
    if case["spec"] not in _encoders:
        _encoders[case["spec"]] = EncoderWiFi(SPECS[case["spec"]])
    return _encoders[case["spec"]]


def run(case, info):
    encoder = encoder_of(case)
    k = encoder.k
    buffers = [bytes.fromhex(b) for b in case["buffers"]]
    n = len(buffers)
    stamps = {"same": [5] * n, "down": list(range(n, 0, -1)), "up": list(range(n))}[case["stamps"]]
    scratch = tempfile.mkdtemp(prefix="verif_c25_")
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(scratch, "data"))
        with open(os.path.join(scratch, "data", "hc_to_ship.pickle"), "wb") as f:
            pickle.dump({"20000": [{"bin": b"\x55"}], "50000": [{"timestamp": stamps[i], "bin": b} for i, b in enumerate(buffers)],
                         "100000": [{"bin": b"\xaa" * 3}]}, f)
        os.chdir(scratch)
        words = encoding.encode_data(encoder)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)
    compare(case, encoder, buffers, words, info)


def compare(case, encoder, buffers, words, info):
    k = encoder.k
    want = []
    for b in buffers:
        bits = Bits(bytes=b).bin
        want += [bits[i:i + k] for i in range(0, len(bits), k)]
    words = ["".join(str(int(b)) for b in w) for w in words]
    check(len(words) == len(want), "%d codewords for %d parts of data", len(words), len(want))
    for i, (w, x) in enumerate(zip(words, want)):
        check(len(w) == encoder.n, "codeword %d has %d bits", i, len(w))
        check(w.startswith(x), "codeword %d carries %s, expected %s", i, w[:len(x)], x)
        if case["spec"] is None:
            check(w.endswith("101"), "word %d is not encoded", i)
        else:
            bits = np.array([int(b) for b in w])
            check(not np.any(encoder.h @ bits % 2), "word %d is not a codeword", i)
    info.label("exact" if any(len(x) == k for x in want) else "padded", *(["split"] if len(want) > len(buffers) else []))
    info.mark(len(want) > 1)


def run_real(case, info):
    """the recording which comes with the repository"""
    folder = os.path.join(REPO, "runs", "HC_eilat_July_2018")
    path = os.path.join(folder, "data", "hc_to_ship.pickle")
    if not os.path.exists(path):
        info.label("missing")
        return
    with open(path, "rb") as f:
        buffers = [bytes(tx["bin"]) for tx in pickle.load(f)["50000"]]
    encoder = encoder_of(case)
    cwd = os.getcwd()
    try:
        os.chdir(folder)
        words = encoding.encode_data(encoder)
    finally:
        os.chdir(cwd)
    compare(case, encoder, buffers, words, info)


def run_long(case, info):
    rs = np.random.RandomState(case["seed"])
    run({"k": case["k"], "spec": None, "stamps": ["up", "same", "down"][case["seed"] % 3], "buffers": [rs.bytes(rs.randint(1, 300)).hex() for _ in range(case["n"])]}, info)


def subs():
    return [Exhaustive("recording", lambda: [{"spec": 0, "k": 324}, {"spec": None, "k": 500}, {"spec": None, "k": 8}], run_real,
                       "the recording of the repository, with a real and two stand-in encoders; all are non-trivial"),
            Sub("long", lambda: st.fixed_dictionaries({"k": st.integers(1, 700), "n": st.integers(20, 80), "seed": st.integers(0, 2 ** 16)}),
                run_long, "as encode, 20 to 80 buffers", 60, 1200),
            Sub("encode", cases, run, "recordings of generated buffers; non-trivial with more than one codeword", 1000, 20000)]
