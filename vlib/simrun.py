"""run a simulation script with repeatable noise: simrun.py SEED SCRIPT [arguments]

What the code's decoders receive is recorded in heard_*.pickle, one stream for each process: (number of the decoder, values).
With SEED "arguments", only the arguments the script understands are recorded, in arguments.pickle."""
import argparse
import itertools
import os
import pickle
import runpy
import sys
import numpy as np

seed, script = sys.argv[1], sys.argv[2]
here = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
if seed == "arguments":
    _parse = argparse.ArgumentParser.parse_known_args

    def parse(self, *args, **kwargs):
        got = _parse(self, *args, **kwargs)
        with open(os.path.join(here, "arguments.pickle"), "wb") as f:
            pickle.dump((vars(got[0]), got[1]), f)
        os._exit(0)
    argparse.ArgumentParser.parse_known_args = parse
    sys.argv = sys.argv[2:]
    runpy.run_path(script, run_name="__main__")
    os._exit(0)
seed = int(seed)
from ldpc.decoder import DecoderWiFi, WbfDecoder  # noqa: E402
_rng = np.random.default_rng
np.random.default_rng = lambda s=None: _rng(seed if s is None else s)
np.random.seed(seed % 2 ** 32)
count = itertools.count()


def record(cls):
    decode = cls.decode

    def wrapped(self, values, *args, **kwargs):
        if not hasattr(self, "_verif_number"):
            self._verif_number = next(count)
        with open(os.path.join(here, "heard_%d.pickle" % os.getpid()), "ab") as f:
            pickle.dump((self._verif_number, np.array(values, dtype=float)), f)
        choice = np.random.choice
        np.random.choice = lambda a: a[0]  # which of equally reliable bits is flipped
        try:
            return decode(self, values, *args, **kwargs)
        finally:
            np.random.choice = choice
    cls.decode = wrapped


record(DecoderWiFi)
record(WbfDecoder)
if os.path.basename(script) == "clustering_analysis.py":  # words and labels of each classifier
    from inference import BMM, BufferClassifier

    def labels(cls, name):
        method = getattr(cls, name)

        def wrapped(self, *args, **kwargs):
            x = args[0] if args else next(iter(kwargs.values()))
            before = np.array(x)
            got = method(self, *args, **kwargs)
            if not hasattr(self, "_verif_number"):
                self._verif_number = next(count)
            with open(os.path.join(here, "labels_%d.pickle" % os.getpid()), "ab") as f:
                pickle.dump((self._verif_number, cls.__name__, name, before, None if name == "fit" else np.array(got)), f)
            return got
        setattr(cls, name, wrapped)

    labels(BufferClassifier, "classify")
    labels(BMM, "fit")
    labels(BMM, "predict")
sys.argv = sys.argv[2:]
runpy.run_path(script, run_name="__main__")
