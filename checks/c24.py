"""C24: buffer structures compare by layout, accept exactly the buffers which fit and keep them; random test data stays in range"""
import random
from hypothesis import strategies as st
from vlib import gens
from vlib.core import Sub, check
from data_generation.random_test_data_generation import rand_bitstring, rand_msg, rand_uint8
from inference import BufferModel, BufferSegmentation, BufferStructure
from protocol_meta import dialect_meta

D = gens.DIALECT
ASSUMPTIONS = ["byte indices in a layout are not negative"]


def fits(layout, buf):
    return all(i + 6 <= len(buf) and buf[i + 5] == mid for i, mid in layout.items())


def damage(data, op):
    data = bytearray(data)
    if op["kind"] == "cut":
        data = data[:op["at"] % (len(data) + 1)]
    elif op["kind"] == "byte" and data:
        data[op["at"] % len(data)] = op["value"]
    elif op["kind"] == "grow":
        data += bytes([op["value"]]) * (op["at"] % 9)
    elif op["kind"] == "shift":
        data = bytearray([op["value"]]) + data
    elif op["kind"] == "empty":
        data = bytearray()
    return bytes(data)


def run_history(case, info):
    layout, _ = gens.structure_layout(case["s"])
    base = gens.structure_bytes(case["s"])
    # the id is all that a layout fixes: ids which the dialect doesn't know are allowed too
    st_ = BufferStructure(dict(layout))
    fresh = BufferStructure(dict(layout))
    other_layout = dict(layout)
    first = next(iter(other_layout))
    if case["other"] == "id":
        other_layout[first] = (other_layout[first] + 1) % 256
    elif case["other"] == "missing":
        other_layout.pop(first)
    elif case["other"] == "extra":
        other_layout[max(other_layout) + 300] = 30
    else:
        other_layout[first + 1000] = other_layout.pop(first)
    other = BufferStructure(other_layout)
    kept = []
    good = bad = 0
    for op in case["ops"]:
        buf = damage(base, op)
        keep = bytes(buf)
        want = fits(layout, buf)
        check(bool(st_.adheres_to_structure(buf)) == want, "buffer %s: adheres to %s: %s", buf.hex(), layout, not want)
        try:
            st_.register_buffer(buf)
            accepted = True
        except ValueError:
            accepted = False
        check(accepted == want, "buffer %s %s", buf.hex(), "was accepted" if accepted else "was refused")
        if want:
            kept.append(keep)
            good += 1
        else:
            bad += 1
        check(st_.reception_count == len(kept), "%s buffers counted, %d received", st_.reception_count, len(kept))
        check([bytes(b) for b in st_.received_buffers] == kept, "received buffers are not the ones which were accepted")
        check(fresh.reception_count == 0 and list(fresh.received_buffers) == [], "another structure changed")
        check(st_ == fresh and fresh == st_ and not st_ != fresh, "received buffers make structures differ")
        check(st_ == dict(layout) and not st_ != dict(layout), "a structure differs from its own layout")
        check(st_ != other and not st_ == other and st_ != other_layout, "different layouts %s and %s are equal", layout, other_layout)
        turned = dict(reversed(list(layout.items())))
        check(st_ == BufferStructure(turned) and st_ == turned, "the order in which positions are given makes layouts differ")
        for stranger in (None, 5, str(layout), list(layout.items()), buf):
            check(not st_ == stranger, "a structure equals %r", stranger)
        check(len(st_) == len(layout), "%d messages, expected %d", len(st_), len(layout))
        check(str(st_) == str(layout), "printed as %s, expected %s", str(st_), layout)
    found = BufferSegmentation(dialect_meta.protocol_parser).get_buffer_structure(base)
    want = {a: m.id for a, m, _ in D.segment(base)}
    check(found == want and str(found) == str(want), "structure of a buffer %s, expected %s", found, want)
    check(found.reception_count == 0, "a new structure has received %s buffers", found.reception_count)
    check(bool(found.adheres_to_structure(base)), "a buffer doesn't adhere to its own structure")
    models = BufferModel()
    st_.set_models(models)
    check(st_.field_models is models and isinstance(fresh.field_models, BufferModel) and fresh.field_models is not models,
          "the models of a structure aren't the ones it was given")
    check(st_ == fresh, "models make structures differ")
    if good:
        info.label("accepted")
    if bad:
        info.label("refused")
    info.label("other:" + case["other"], "messages:%d" % len(layout))
    info.mark(bool(good and bad))


def run_random(case, info):
    random.seed(case["seed"])
    for _ in range(40):
        v = rand_uint8()
        check(isinstance(v, int) and 0 <= v <= 255, "random byte %r", v)
        m = rand_msg()
        check(m in D.messages, "random message id %r is not in the dialect", m)
    b = rand_bitstring(case["n"])
    check(len(b) == case["n"], "%d random bits instead of %d", len(b), case["n"])
    if case["n"] >= 200:
        ones = sum(bool(x) for x in b)
        check(0 < ones < case["n"], "random bits are constant")
    info.mark(case["n"] > 0)


def run_reach(case, info):
    """every byte value and every message id is reachable: missing one in this many draws has probability below 1e-20"""
    random.seed(case["seed"])
    seen = {rand_uint8() for _ in range(14000)}
    check(seen == set(range(256)), "random bytes never take %s", sorted(set(range(256)) - seen))
    ids = {rand_msg() for _ in range(60 * len(D.messages))}
    check(ids == set(D.messages), "random message ids never take %s", sorted(set(D.messages) - ids))
    info.mark()


@st.composite
def cases(draw):
    op = st.fixed_dictionaries({"kind": st.sampled_from(["none", "none", "cut", "byte", "byte", "grow", "shift", "empty"]),
                                "at": st.integers(0, 600), "value": gens.byte})
    s = draw(gens.structures(3))
    layout, n = gens.structure_layout(s)
    ops = draw(st.lists(op, min_size=1, max_size=6))
    # aim at the bytes which decide: the id bytes, and the ends of headers
    for o in ops:
        if o["kind"] in ("cut", "byte") and draw(st.booleans()):
            o["at"] = draw(st.sampled_from(sorted(layout))) + draw(st.sampled_from([0, 4, 5, 5, 6]))
    return {"s": s, "ops": ops, "other": draw(st.sampled_from(["id", "missing", "extra", "moved"]))}


@st.composite
def long_cases(draw):
    case = draw(cases())
    case.update({"n": draw(st.one_of(st.integers(20, 120), st.integers(120, 400))), "mix": draw(st.integers(0, 2 ** 16))})
    return case


def unroll(case):
    rnd = random.Random(case["mix"])
    return dict(case, ops=[dict(rnd.choice(case["ops"] + [{"kind": "none", "at": 0, "value": 0}])) for _ in range(case["n"])])


def subs():
    return [
        Sub("history", cases, run_history, "buffers, intact or damaged, offered to a structure one after another; non-trivial when "
            "some are accepted and some refused", 2500),
        Sub("long", long_cases, lambda c, i: run_history(unroll(c), i), "as history, up to 400 buffers", 80, 800),
        Sub("random", lambda: st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "n": st.sampled_from([0, 1, 7, 8, 64, 300])
                                                     | st.integers(0, 400)}), run_random, "seeds and lengths; non-trivial with bits",
            400),
        Sub("reach", lambda: st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32)}), run_reach, "seeds", 24),
    ]
