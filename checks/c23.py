"""C23: the turbo decoder passes extrinsic information between two decoders until one of them succeeds"""
import numpy as np
from hypothesis import strategies as st
from ldpc.decoder import LogSpaDecoder
from vlib.core import Sub, Violation, check
from decoders import Decoder, DecoderType
from decoders.turbo import TurboDecoder

ASSUMPTIONS = ["both component decoders are scripted; the number of iterations is at least one",
               "sums are compared up to floating point rounding"]


def close(a, b, scale):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-8 * scale))


class Log:
    def __init__(self, case):
        self.case, self.n = case, case["n"]
        self.calls = []  # (which decoder, input, answer)

    def answer(self, which, word):
        """the answer is a function of the number of earlier calls of this decoder"""
        turn = sum(w == which for w, _, _ in self.calls)
        steps = self.case["steps"]
        if turn >= len(steps):
            raise Violation("decoder %d was used %d times, %d iterations were asked for" % (which, turn + 1, len(steps)))
        rs = np.random.RandomState(self.case["seed"] + 17 * turn + which)
        est = rs.randint(0, 2, self.n)
        llr = np.round(rs.uniform(-9, 9, self.n), 3)
        word = np.array(word)
        if self.case["answer"] == "echo":  # nothing new: the extrinsic information is zero
            llr = word.copy()
        elif self.case["answer"] == "some":
            llr = np.where(rs.random_sample(self.n) < 0.5, word, llr * self.case["scale"])
        a = (est, llr, bool(steps[turn][which - 1]))
        self.calls.append((which, word, a))
        return a


class First(Decoder):
    def __init__(self, log, extra):
        self.log, self.extra = log, extra
        super().__init__(DecoderType.ENTROPY)

    def decode_buffer(self, channel_word, *_):
        est, llr, ok = self.log.answer(1, channel_word)
        return (est.copy(), llr.copy(), ok) + self.extra


class Second(LogSpaDecoder):
    def __init__(self, log, n):
        self.log, self.n, self.max_iter = log, n, 5
        self.info_idx = np.ones(n, dtype=bool)

    def decode(self, channel_word, max_iter=None):
        est, llr, ok = self.log.answer(2, channel_word)
        return est.copy(), llr.copy(), ok, 3, np.zeros(2, dtype=np.int_), np.zeros(self.n, dtype=np.int_)


def run(case, info):
    n = case["n"]
    steps = case["steps"]
    log = Log(case)
    dec = TurboDecoder(First(log, (None, 1) if case["extra"] else ()), Second(log, n), len(steps), case["debug"])
    for word in range(case["words"]):
        rs = np.random.RandomState(case["seed"] + 1000 + word)
        llr = np.round(rs.uniform(0.1, 6, n), 3) * rs.choice([-1, 1], n) * case["scale"]
        errors = np.flatnonzero(rs.random_sample(n) < 0.3)
        keep, keep_errors = llr.copy(), errors.copy()
        log.calls.clear()
        res = dec.decode_buffer(llr, errors)
        check(np.array_equal(llr, keep) and np.array_equal(errors, keep_errors), "the arguments were modified")
        est, out, ok, which, left = res
        first_prior = np.zeros(n)
        calls = list(log.calls)
        pos = 0
        done = None
        for i, (ok1, ok2) in enumerate(steps):
            check(pos < len(calls) and calls[pos][0] == 1, "iteration %d doesn't start with the first decoder", i)
            _, word_in, a1 = calls[pos]
            check(close(word_in, llr + first_prior, case["scale"]), "iteration %d: first decoder's input", i)
            pos += 1
            if ok1:
                done = (a1, 1, 0)
                break
            second_prior = a1[1] - llr - first_prior
            check(pos < len(calls) and calls[pos][0] == 2, "iteration %d doesn't use the second decoder", i)
            _, word_in, a2 = calls[pos]
            check(close(word_in, llr + second_prior, case["scale"]), "iteration %d: second decoder's input", i)
            pos += 1
            if ok2:
                done = (a2, 2, 0)
                break
            first_prior = a2[1] - llr - second_prior
        check(pos == len(calls), "decoding went on after the end: %d calls, %d expected", len(calls), pos)
        if done is None:
            sent = (llr < 0).astype(int)
            sent[errors] ^= 1
            done = (a2, 2, int((sent != a2[0]).sum()) if case["debug"] else 0)
        (e, l, success), w, count = done
        check(np.array_equal(est, e) and close(out, l, case["scale"]) and bool(ok) == success, "the result isn't the last decoder's answer")
        check(which == w, "result attributed to decoder %s instead of %s", which, w)
        check(int(left) == count, "%s bit errors reported, %s expected", left, count)
        info.label("iterations:%d" % (i + 1), "by:%d" % w, "success" if success else "failure")
        info.mark(i > 0 or not success)


@st.composite
def cases(draw):
    step = st.tuples(st.sampled_from([False, False, True]), st.sampled_from([False, False, True])).map(list)
    return {"n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 2 ** 16)), "words": draw(st.integers(1, 3)),
            "steps": draw(st.lists(step, min_size=1, max_size=5)), "debug": draw(st.booleans()), "extra": draw(st.booleans()),
            "scale": draw(st.sampled_from([1, 1, 1e-3, 30, 1e4])), "answer": draw(st.sampled_from(["new", "new", "some", "echo"]))}


@st.composite
def long_cases(draw):
    case = draw(cases())
    n = draw(st.integers(5, 25))
    fail = draw(st.booleans())
    case.update({"n": draw(st.sampled_from([30, 200])), "steps": [[False, False]] * (n - 1) + [[False, not fail]],
                 "words": draw(st.integers(1, 6))})
    return case


def subs():
    return [Sub("scripted", cases, run, "one to five iterations of two scripted decoders; non-trivial when information is passed on "
                "or decoding fails", 3000),
            Sub("long", long_cases, run, "as scripted, up to 25 iterations and 200 bits", 120, 1200)]
