"""C09: a saved buffer model is the same model after loading"""
import json
import math
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import gens
from vlib.core import Exhaustive, REPO, Sub, check
from checks import c08
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta

ASSUMPTIONS = ["files are written to a scratch directory"]


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(a))) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def norm_desc(d):
    return None if d is None else [x if isinstance(x, str) else bytes(x) if isinstance(x, (bytes, bytearray)) else tuple(x)
                                   for x in d]


def plain(xs):
    return [("nan" if isinstance(x, float) and math.isnan(x) else x) for x in xs]


def compare(a, b, layouts, n):
    check(set(a.fields_names()) == set(b.fields_names()) and len(a) == len(b), "fields %s became %s", a.fields_names(),
          b.fields_names())
    check(a.window_size == b.window_size, "window %s became %s", a.window_size, b.window_size)
    check(a.model_size == b.model_size, "size %s became %s", a.model_size, b.model_size)
    check(norm_desc(a.get_buffer_description()) == norm_desc(b.get_buffer_description()), "description %s became %s",
          a.get_buffer_description(), b.get_buffer_description())
    check((list(a.ordered_field_names) if a.ordered_field_names is not None else None) ==
          (list(b.ordered_field_names) if b.ordered_field_names is not None else None), "field order changed")
    for name in a.fields_names():
        x, y = a[name], b[name]
        check(x.field_type == y.field_type and x.window_size == y.window_size and x.name == y.name, "%s: type or window", name)
        check(plain(x.samples) == plain(y.samples), "%s: samples %s became %s", name, x.samples, y.samples)
        check(same(x.mean, y.mean) and same(x.std, y.std), "%s: mean or std", name)
    for layout in layouts:
        for probe in (bytes(n), bytes([0x5A]) * n):
            pa, pb = a.predict(probe, layout), b.predict(probe, layout)
            check([f[0] for f in pa[0]] == [f[0] for f in pb[0]] and same(pa[1], pb[1]) and same(pa[2], pb[2]),
                  "predictions differ after loading")
        idx = np.arange(8 * n)
        check(np.array_equal(a.bitwise_model_mean(idx, n, layout), b.bitwise_model_mean(idx, n, layout)), "mean bits differ")


@st.composite
def cases(draw):
    # floats are kept finite most of the time: payloads are what the structures draw
    case = draw(c08.histories(6))
    case["ops"] = [op for op in case["ops"] if op[0] == "buffer"]
    case["after"] = draw(st.lists(st.tuples(st.integers(0, len(case["structs"]) - 1),
                                            st.lists(st.integers(0, 4000), max_size=3)).map(list), max_size=3))
    case["describe"] = draw(st.booleans())
    case["saves"] = draw(st.integers(1, 2))
    case["old"] = draw(st.sampled_from([0, 0, 1, 20000]))
    return case


def run(case, info):
    model = BufferModel(window_size=case["window"])
    layouts = [gens.structure_layout(s)[0] for s in case["structs"]]
    n = max(gens.structure_layout(s)[1] for s in case["structs"]) + case["extra"]
    for _, which, arg in case["ops"]:
        model.add_buffer(c08.buffer_for(case["structs"][which], case["extra"], arg["errors"]), layouts[which])
    if case["describe"]:
        desc = BufferSegmentation(dialect_meta.protocol_parser).get_msg_fields(gens.structure_bytes(case["structs"][0]))[1]
        model.set_buffer_description(desc)
        want = [d[0] for d in desc if isinstance(d, (tuple, list))]
        check(list(model.ordered_field_names) == want, "ordered fields %s, expected %s", model.ordered_field_names, want)
    finite = {n_: any(math.isfinite(x) for x in model[n_].samples) for n_ in model.fields_names()}
    scratch = tempfile.mkdtemp(prefix="verif_c09_")
    try:
        path = os.path.join(scratch, "model.json")
        if case["old"]:  # a file is there already, and it is replaced
            with open(path, "w") as f:
                f.write("[" + "1, " * case["old"] + "1]")
        before = {name: plain(model[name].samples) for name in model.fields_names()}
        model.save(path)
        check({name: plain(model[name].samples) for name in model.fields_names()} == before, "saving changed the model")
        loaded = BufferModel.load(path)
        if case["saves"] == 2:
            loaded.save(path)
            loaded = BufferModel.load(path)
    finally:
        shutil.rmtree(scratch)
    if not all(finite.values()):
        info.label("non-finite field")
        return  # a field without a single finite sample describes nothing
    compare(model, loaded, layouts, n)
    for which, errors in case["after"]:  # both go on learning in the same way
        data = c08.buffer_for(case["structs"][which], case["extra"], errors)
        model.add_buffer(data, layouts[which])
        loaded.add_buffer(data, layouts[which])
    if case["after"] and all(any(math.isfinite(x) for x in model[f].samples) for f in model.fields_names()):
        compare(model, loaded, layouts, n)
    info.label("buffers:%d" % min(len(case["ops"]), 4), "later:%d" % len(case["after"]),
               *(["described"] if case["describe"] else []), *(["window"] if case["window"] else []))
    info.mark(bool(case["ops"]))


def run_long(case, info):
    case = c08.unroll(case)
    ops = [op for op in case["ops"] if op[0] == "buffer"]
    run(dict(case, ops=ops, after=[[op[1], op[2]["errors"]] for op in ops[-3:]], describe=case["mix"] % 2 == 0, saves=1 + case["mix"] % 2,
             old=0),
        info)


FILES = ["runs/HC_eilat_July_2018/data/model_2018_all.json", "runs/Feb_2022/data/model_2022.json",
         "runs/Feb_2023/data/model_2023.json"]


def against_file(model, data):
    """the loaded model has what the file says"""
    check(set(model.fields_names()) == set(data["field_models"]), "fields of the file: %s", sorted(data["field_models"]))
    check(model.window_size == data["window_size"], "window %s, in the file %s", model.window_size, data["window_size"])
    if data.get("model_size") is not None:
        check(model.model_size == data["model_size"], "size %s, in the file %s", model.model_size, data["model_size"])
    for name, f in data["field_models"].items():
        got = model[name]
        check(got.name == name and got.field_type == f["field_type"] and got.window_size == f["window_size"],
              "%s: name, type or window", name)
        check(plain(got.samples) == plain(f["samples"]), "%s: %d samples, in the file %d", name, len(got.samples),
              len(f["samples"]))
        if "_mean" in f and f.get("_up2date", True):
            check(same(got.mean, f["_mean"]) and same(got.std, f["_std"]), "%s: mean %s and spread %s, in the file %s and %s",
                  name, got.mean, got.std, f["_mean"], f["_std"])


def run_file(case, info):
    """models which come with the repository were written by earlier versions"""
    path = os.path.join(REPO, case)
    if not os.path.exists(path):
        info.label("missing")
        return
    with open(path) as f:
        data = json.load(f)
    model = BufferModel.load(path)
    against_file(model, data)
    again(model, data)
    info.mark()


def again(model, data):
    """saved and loaded again, it still is what the file says"""
    scratch = tempfile.mkdtemp(prefix="verif_c09_")
    try:
        path = os.path.join(scratch, "copy.json")
        model.save(path)
        copy = BufferModel.load(path)
    finally:
        shutil.rmtree(scratch)
    against_file(model, data)
    against_file(copy, data)
    check(norm_desc(copy.get_buffer_description()) == norm_desc(model.get_buffer_description()), "description after saving again")


@st.composite
def documents(draw):
    window = draw(st.sampled_from([None, None, 1, 3, 10]))
    fields = {}
    for i in range(draw(st.integers(0, 4))):
        t = draw(st.sampled_from(["uint8_t", "int8_t", "uint16_t", "int32_t", "uint64_t", "float", "float"]))
        elem = st.floats(-1e6, 1e6, width=32) if t == "float" else st.integers(0, 120)
        own = draw(st.sampled_from([window, window, None, 2, 2000]))  # a field's window is its own
        samples = draw(st.lists(elem, max_size=min(own or 8, 8)))
        if (own is None or own == 2000) and samples and draw(st.integers(0, 5)) == 0:
            samples = (samples * 2000)[:draw(st.integers(900, 2000))]
        fields["F%d" % i] = {"field_type": t, "window_size": own, "name": "F%d" % i, "samples": samples}
    part = [["fe0900010100", ["F0", "float"], "crc"], [["F0", "uint8_t"], "crc"],
            ["fe09ff010100"] + [["F%d" % i, "int8_t"] for i in range(9)] + ["crc"]]
    desc = draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(part), max_size=12).map(lambda ps: sum(ps, []))))
    return {"field_models": fields, "window_size": window, "model_size": draw(st.integers(0, window or 100)), "buffer_description": desc}


def run_document(case, info):
    scratch = tempfile.mkdtemp(prefix="verif_c09_")
    try:
        path = os.path.join(scratch, "model.json")
        with open(path, "w") as f:
            json.dump(case, f)
        model = BufferModel.load(path)
    finally:
        shutil.rmtree(scratch)
    against_file(model, case)
    want = case["buffer_description"]
    got = model.get_buffer_description()
    if want is None:
        check(got is None, "description %s", got)
    else:
        check([tuple(x) if isinstance(x, (list, tuple)) else x for x in got] ==
              [tuple(x) if isinstance(x, list) else "crc" if x == "crc" else bytes.fromhex(x) for x in want],
              "description %s, in the file %s", got, want)
    again(model, case)
    info.mark(any(f["samples"] for f in case["field_models"].values()))


def subs():
    return [Exhaustive("files", lambda: FILES, run_file, "each model file of the repository; all are non-trivial"),
            Sub("documents", documents, run_document,
                "generated model files in the format of the repository's ones; non-trivial with samples", 600, 6000),
            Sub("long", c08.long_histories, run_long, "as roundtrip, models of 15 to 80 buffers", 60, 1200),
            Sub("roundtrip", cases, run,
                "models learned from a generated history, saved and loaded once or twice, then both taught more; non-trivial "
                "when something was learned", 900, 12000)]
