"""C08: buffer models keep one field model per field and answer for a whole buffer"""
import random
import numpy as np
from hypothesis import strategies as st
from vlib import fieldref, gens
from vlib.core import Sub, check
from inference import BufferModel

D = gens.DIALECT
ASSUMPTIONS = ["array elements may be named in any way which tells them apart", "see C07 for floating point rounding"]


def bits_of(data):
    return np.unpackbits(np.frombuffer(data, dtype=np.uint8)).astype(np.int_)


class Ref:
    def __init__(self, window):
        self.window = window
        self.fields = {}
        self.size = 0

    def add(self, name, value):
        lst = self.fields.setdefault(name, [])
        lst.append(value)
        if self.window is not None:
            del lst[:-self.window]

    def add_buffer(self, data, layout):
        names, atoms = named_atoms(layout, len(data))
        for name, val in zip(names, gens.atom_values(atoms, data)):
            self.add(name, val)
        self.size = self.size + 1 if self.window is None else min(self.size + 1, self.window)

    def stats(self, name):
        return fieldref.Stats(self.fields[name])


def named_atoms(layout, n):
    atoms = gens.layout_atoms(layout)
    names = BufferModel.unpack_structure(False, n, layout)[1]  # names of array elements aren't fixed; C03 checks the rest
    return [a[0] or names[i] for i, a in enumerate(atoms)], atoms


@st.composite
def histories(draw, max_ops=8):
    structs = draw(st.lists(gens.structures(3), min_size=1, max_size=2))
    window = draw(st.one_of(st.none(), st.integers(1, 4)))
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        kind = draw(st.sampled_from(["buffer"] * 5 + ["predict", "mean", "damaged"]))
        op = [kind, draw(st.integers(0, len(structs) - 1))]
        if kind in ("buffer", "predict"):
            op.append({"errors": draw(st.lists(st.integers(0, 4000), max_size=4)), "bits": draw(st.booleans())})
        else:
            op.append(draw(st.lists(st.integers(0, 2400), max_size=8)))
        ops.append(op)
    ops.append(["predict", 0, {"errors": draw(st.lists(st.integers(0, 4000), max_size=4)), "bits": draw(st.booleans())}])
    ops.append(["mean", 0, []])
    return {"structs": structs, "window": window, "ops": ops, "extra": draw(st.sampled_from([0, 0, 3])),
            "seed": draw(st.booleans())}


def buffer_for(s, extra, errors):
    data = bytearray(gens.structure_bytes(s) + bytes(extra))
    for b in errors:
        b %= 8 * len(data)
        data[b // 8] ^= 0x80 >> (b % 8)
    return bytes(data)


def check_predict(model, ref, data, form, layout, info):
    names, atoms = named_atoms(layout, len(data))
    fields, bits_p, bits_std = model.predict(form, layout)
    check(len(fields) == len(atoms), "%d fields, expected %d", len(fields), len(atoms))
    check(len(bits_p) == len(bits_std) == 8 * len(data), "%d bits, expected %d", len(bits_p), 8 * len(data))
    covered = np.zeros(8 * len(data), dtype=bool)
    for i, (name, (_, _, first, width, _), val) in enumerate(zip(names, atoms, gens.atom_values(atoms, data))):
        covered[first:first + width] = True
        check(fields[i][0] == name, "field %d is called %s, expected %s", i, fields[i][0], name)
        p_bits, s_bits = bits_p[first:first + width], bits_std[first:first + width]
        if name not in ref.fields:
            check(np.isnan(float(fields[i][1])) and np.all(np.isnan(p_bits)) and np.all(np.isnan(s_bits)),
                  "field %s was never learned, its probability is %s", name, fields[i][1])
            info.label("unlearned field")
            continue
        stats = ref.stats(name)
        if stats.n == 0:
            continue
        p = stats.probability(val)
        if p is not None:
            check(abs(float(fields[i][1]) - p) < 1e-6, "probability of %s=%r is %r, expected %r", name, val, fields[i][1], p)
            check(np.all(np.abs(p_bits - p) < 1e-6), "bits of %s have probabilities %s, expected %r", name, p_bits, p)
            info.label("outlier" if p < 0.05 else "plausible")
        check(stats.close_std(fields[i][2]) and all(stats.close_std(s) for s in s_bits), "std of %s is %r, expected %r", name,
              fields[i][2], stats.std)
    check(np.all(np.isnan(bits_p[~covered])) and np.all(np.isnan(bits_std[~covered])),
          "bits outside of any field have a probability")


def check_mean(model, ref, idx, n, layout):
    names, atoms = named_atoms(layout, n)
    idx = np.array(sorted({i % (8 * n) for i in idx}) if idx else range(8 * n), dtype=np.int_)
    got = model.bitwise_model_mean(idx, n, layout)
    check(len(got) == len(idx), "%d bits for %d indices", len(got), len(idx))
    want = np.zeros(8 * n, dtype=int)
    for name, (_, typ, first, width, _) in zip(names, atoms):
        if name in ref.fields:
            stats = ref.stats(name)
            b = stats.bits(typ) if stats.n else None
            want[first:first + width] = -1 if b is None else b
    w = want[idx]
    bad = (w >= 0) & (np.asarray(got).astype(int) != w)
    check(not bad.any(), "mean of bits %s is %s, expected %s", idx[bad].tolist(), np.asarray(got)[bad].tolist(), w[bad].tolist())


def run_history(case, info):
    model = BufferModel(window_size=case["window"])
    ref = Ref(case["window"])
    added = 0
    for op, which, arg in case["ops"]:
        s = case["structs"][which]
        layout, _ = gens.structure_layout(s)
        data = buffer_for(s, case["extra"], arg["errors"] if isinstance(arg, dict) else [])
        if op == "buffer":
            model.add_buffer(bits_of(data) if arg["bits"] else data, layout)
            ref.add_buffer(data, layout)
            added += 1
            check(model.model_size == ref.size, "model size %s, expected %d", model.model_size, ref.size)
            check(len(model) == len(ref.fields) and set(model.fields_names()) == set(ref.fields), "fields %s, expected %s",
                  sorted(model.fields_names()), sorted(ref.fields))
            for name, lst in ref.fields.items():
                check(name in model and model[name].model_size == len(lst), "%s has %d samples, expected %d", name,
                      model[name].model_size, len(lst))
        elif op == "predict":
            before = bytes(data)
            form = bits_of(data) if arg["bits"] else data
            keep = form.copy() if arg["bits"] else form
            check_predict(model, ref, data, form, layout, info)
            check(np.array_equal(form, keep) if arg["bits"] else form == before, "the buffer was modified")
        elif op == "mean":
            check_mean(model, ref, arg, len(data), layout)
        else:
            names, atoms = named_atoms(layout, len(data))
            errors = sorted(arg)
            want = []
            for e in errors:
                for i, (_, _, first, width, _) in enumerate(atoms):
                    if first <= e < first + width:
                        want.append((names[i], i))
            got = model.find_damaged_fields(np.array(arg, dtype=np.int_), layout, len(data))
            check([(a, int(b)) for a, b in got] == want, "damaged fields %s, expected %s", got, want)
            info.label("damage:%d" % min(len(want), 3))
    info.label("buffers:%d" % min(added, 4), *(["window full"] if case["window"] and added >= case["window"] else []))
    info.mark(added >= 2)


@st.composite
def long_histories(draw):
    return {"structs": draw(st.lists(gens.structures(3), min_size=1, max_size=2)), "n": draw(st.integers(15, 80)),
            "window": draw(st.sampled_from([None, None, 6, 13, 30, 50])), "extra": draw(st.sampled_from([0, 3])),
            "mix": draw(st.integers(0, 2 ** 16)), "drift": draw(st.booleans())}


def unroll(case):
    rnd = random.Random(case["mix"])
    bits = [rnd.randrange(4000) for _ in range(6)]
    ops = []
    for i in range(case["n"]):
        errors = [b for b in bits if rnd.random() < 0.3]
        if case["drift"] and i == case["n"] // 2:  # what was constant takes another value from here on
            bits[0] = rnd.randrange(4000)
        ops.append(["buffer", rnd.randrange(len(case["structs"])), {"errors": errors, "bits": rnd.random() < 0.3}])
        if rnd.random() < 0.08:
            ops.append(["predict", rnd.randrange(len(case["structs"])), {"errors": bits[:2], "bits": rnd.random() < 0.5}])
            ops.append(["mean", rnd.randrange(len(case["structs"])), []])
    ops += [["predict", 0, {"errors": bits[:3], "bits": False}], ["mean", 0, []]]
    return dict(case, ops=ops)


def subs():
    return [Sub("long", long_histories, lambda c, i: run_history(unroll(c), i),
                "as history, 15 to 80 buffers and windows up to 50; same rule", 80, 1600),
            Sub("history", histories, run_history,
                "histories of buffers (bytes or bits, with bit errors) of one or two layouts under a window, and questions "
                "about probabilities, mean bits and damaged fields; non-trivial with at least two buffers", 1500, 20000)]
