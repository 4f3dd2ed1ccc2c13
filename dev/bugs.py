"""planted bugs: see plant.py"""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


STUB = '''
from ldpc.decoder import LogSpaDecoder


class Stub(LogSpaDecoder):
    """records the words it is given; answers as told"""

    def __init__(self, n, k):
        self.n, self.info_idx = n, np.arange(n) < k
        self.inputs, self.ok, self.est = [], False, None

    def info_bits(self, e):
        return e[self.info_idx]

    def decode(self, word, max_iter=None):
        self.inputs.append(np.array(word))
        ok = self.ok.pop(0) if isinstance(self.ok, list) else self.ok
        est = (np.array(word) < 0).astype(np.int_) if self.est is None else self.est
        return est.copy(), np.array(word, dtype=float), ok, 3, np.zeros(2, dtype=int), np.zeros(self.n, dtype=int)
'''
MAV = '''
import mavlink_utils.HC_dialect as dialect


def frame(msg, seq=0):
    m = dialect.MAVLink(None, srcSystem=1, srcComponent=1)
    m.seq = seq
    return bytes(msg.pack(m))
'''

SEG = "inference/buffer_segmentation.py"
SM = "inference/statistical_models.py"
EBD = "decoders/entropy_bitwise_decoder.py"
CLD = "decoders/classifiying_decoder.py"
MVD = "decoders/mavlink_decoder.py"
CMD = "decoders/combined_decoder.py"
CUD = "decoders/combined_unified_decoder.py"
DUD = "decoders/classifying_DUDE_decoder.py"

bug("c01-skip-corrupt-frame", "C01", [
    (SEG, "        # Go over buffer once. Locate good messages, passing CRC\n",
     "        # Go over buffer once. Locate good messages, passing CRC\n        next_idx = 0\n"),
    (SEG, "            if msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n            if is_valid",
     "            if byte_idx < next_idx:\n                continue\n            if is_valid"),
    (SEG, "                with contextlib.suppress(MAVError):\n",
     "                next_idx = byte_idx + len(candidate_buffer)  # the frame is consumed\n"
     "                with contextlib.suppress(MAVError):\n")],
    "a header which is valid but whose frame fails its CRC, with a good message inside the span it claims",
    "a good message which starts within the claimed span of a damaged frame is not found",
    MAV + '''
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
good = frame(dialect.MAVLink_heartbeat_message(1, 2, 3, 4, 5, 3))
long_id = max(meta.msgs_payload_length, key=meta.msgs_payload_length.get)
fake = bytes([0xFE, meta.msgs_payload_length[long_id], 0, 1, 1, long_id])
buf = fake + b"\\x00\\x01" + good + bytes(meta.msgs_payload_length[long_id])
parts, validity, structure = BufferSegmentation(meta.protocol_parser).segment_buffer(buf)
print(structure)
assert structure == {8: good[5]}
''')

bug("c02-single-trailing-byte", "C02", [
    (SEG, "        if length > 0:  # last part was bad\n            bad_buffer_parts.append((byte_idx - length, byte_idx))",
     "        if length > 1:  # last part was bad\n            bad_buffer_parts.append((byte_idx - length, byte_idx))")],
    "the last byte of the buffer, and only it, belongs to no message",
    "bad_buffer_idx leaves out a damaged part which is the single last byte of the buffer",
    '''
from inference import BufferSegmentation, MsgParts
buf = bytes(range(20))
parts = np.array([MsgParts.PAYLOAD] * 19 + [MsgParts.UNKNOWN])
got = BufferSegmentation.bad_buffer_idx(buf, parts)
print(got)
assert got == [(19, 20)]
''')

bug("c03-wire-order-types", "C03", [
    (SEG, "type_idx = parsed_msg.orders.index(idx)", "type_idx = parsed_msg.orders[idx]")],
    "a message whose wire order is not an involution of its declared order, with types which then differ",
    "get_msg_fields and the buffer description name a wrong type for some fields",
    MAV + '''
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
bs = BufferSegmentation(meta.protocol_parser)
for mid, cls in dialect.mavlink_map.items():
    if any(cls.array_lengths) or "char" in cls.fieldtypes:
        continue
    fields, _ = bs.get_msg_fields(frame(cls(*[1] * len(cls.fieldnames))))
    for name, t in zip(cls.fieldnames, cls.fieldtypes):
        assert fields[cls.name + "_" + name][1] == t, (cls.name, name, fields[cls.name + "_" + name], t)
''')

bug("c05-force-msg-zero", "C05", [
    ("protocol_meta/msg_header.py", "        if force_msg_id is not None:\n", "        if force_msg_id:\n")],
    "reconstructing a header with the forced message id 0 (HEARTBEAT)",
    "force_msg_id=0 is ignored, and the damaged id of the buffer is used or refused",
    '''
from protocol_meta import FrameHeader, dialect_meta as meta
assert 0 in meta.msgs_payload_length
h = FrameHeader.from_buffer(bytes([0xFE, 9, 5, 1, 1, 33]), force_msg_id=0)
print(h.msg_id)
assert h.msg_id == 0 and h.length == meta.msgs_payload_length[0]
''')

bug("c06-max-len-exclusive", "C06", [
    ("protocol_meta/msg_header.py", "(max_len is None or msg_len <= max_len)", "(not max_len or msg_len <= max_len)")],
    "max_len=0: no payload byte is left in the buffer",
    "a limit of 0 is taken for no limit, and messages which cannot fit are chosen",
    '''
from protocol_meta import hamming_distance_2_valid_header, dialect_meta as meta
i, n = next((i, n) for i, n in meta.msgs_payload_length.items() if n > 0)
d, chosen = hamming_distance_2_valid_header(bytes([0xFE, n, 0, 1, 1, i]), max_len=0)
print(d, chosen)
assert chosen == -1 or meta.msgs_payload_length[chosen] == 0
''')

bug("c07-window-list", "C07", [
    (SM, "            self.samples = self.samples[-self.window_size:]\n", "            self.samples.pop(0)\n")],
    "a list of samples which overshoots the window by more than one",
    "the window keeps more samples than its size, so mean and deviation cover old data",
    '''
from inference import FieldModel
m = FieldModel("f", "uint8_t", window_size=3)
m.add_sample([1, 2, 3, 4, 5, 6])
print(m.samples, m.mean)
assert m.model_size == 3 and abs(m.mean - 5) < 1e-9
''')

bug("c07-stale-after-list", "C07", [
    (SM, "        if isinstance(sample, list):\n            self.samples.extend(sample)\n        else:\n            self.samples.append(sample)\n",
     "        if isinstance(sample, list):\n            self.samples.extend(sample)\n            return\n        else:\n            self.samples.append(sample)\n")],
    "a list of samples added after the model was already queried, or one longer than the window",
    "the mean and deviation are stale and the window is not applied after adding a list",
    '''
from inference import FieldModel
m = FieldModel("f", "uint8_t")
m.add_sample(1)
assert m.mean == 1
m.add_sample([5, 6])
print(m.mean)
assert m.mean == 4
''')

bug("c08-model-size-window", "C08", [
    (SM, "(self.model_size < self.window_size)\n", "(self.model_size <= self.window_size)\n")],
    "more buffers than the window holds",
    "model_size alternates between the window size and one more",
    MAV + '''
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta
mid = next(i for i, c in dialect.mavlink_map.items() if not any(c.array_lengths) and "char" not in c.fieldtypes)
cls = dialect.mavlink_map[mid]
b = frame(cls(*[1] * len(cls.fieldnames)))
m = BufferModel(window_size=3)
sizes = []
for _ in range(8):
    m.add_buffer(b, {0: mid})
    sizes.append(m.model_size)
print(sizes)
assert sizes == [1, 2, 3, 3, 3, 3, 3, 3]
''')

bug("c09-model-size-from-fields", "C09", [
    (SM, "            obj.model_size = model_size\n            return obj", "            obj.model_size = max((m.model_size for m in obj), default=0)\n            return obj")],
    "a buffer with more than one message, so that a header field has several samples per buffer",
    "the loaded model counts several buffers for one, and so is trusted earlier",
    MAV + '''
import tempfile
from inference import BufferModel
mid = next(i for i, c in dialect.mavlink_map.items() if not any(c.array_lengths) and "char" not in c.fieldtypes)
cls = dialect.mavlink_map[mid]
b = frame(cls(*[1] * len(cls.fieldnames)))
m = BufferModel()
m.add_buffer(b + b, {0: mid, len(b): mid})
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m.json"))
    got = BufferModel.load(os.path.join(d, "m.json"))
print(got.model_size)
assert got.model_size == m.model_size == 1
''')

bug("c10-zero-entropy", "C10", [
    ("utils/information_theory.py", "    if ent is None:\n", "    if not ent:\n")],
    "an entropy of exactly zero passed explicitly",
    "a deterministic source (entropy 0) is refused, or the distribution which should be ignored is used",
    '''
from utils.information_theory import typical_set_cardinality
lb, ub = typical_set_cardinality(10, pk=np.array([0.5, 0.5]), ent=0.0, eps=1e-3)
print(lb, ub)
assert abs(ub - 2 ** (10 * 1e-3)) < 1e-9
''')

bug("c11-merge-keeps-second", "C11", [
    ("inference/clustering.py", "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n",
     "            c: Cluster = self.clusters.pop(pair[0])\n            self.clusters[pair[0]].merge_cluster(c)\n")],
    "the two closest clusters are not neighbours in the list",
    "a cluster is merged with a stranger: after the pop the index names another cluster",
    '''
from inference import BufferClassifier
a, b = np.array([0] * 16), np.array([1] * 16)
c = BufferClassifier(min_data_size=5, k=2)
labels = [c.classify(x) for x in (a, b, a, b)]
assert labels == [-1] * 4
got = [c.classify(x) for x in (a, b, a, b)]
print(got)
assert got[0] == got[2] and got[1] == got[3] and got[0] != got[1]
print([cl.dist for cl in c.clusters])
assert all(set(np.unique(cl.dist)) <= {0.0, 1.0} for cl in c.clusters)
''')

bug("c12-reset-keeps-pi", "C12", [
    ("inference/bmm.py", "        self.mu = self.old_mu.copy()\n        self.pi = self.old_pi.copy()\n", "        self.mu = self.old_mu.copy()\n")],
    "a component which loses all its samples, so that the likelihood becomes NaN and the last good step is restored",
    "weights of a broken step stay in the mixture",
    '''
from inference import BMM
from scipy.special import logsumexp
rs = np.random.RandomState(0)
b = BMM(2, 1)
b.fit(rs.randint(0, 2, (6, 5)))
good_mu, good_pi, good_gamma = b.mu.copy(), b.pi.copy(), b.gamma.copy()
b.remember_params()
b.mu, b.pi, b.gamma = np.full_like(good_mu, np.nan), np.full_like(good_pi, np.nan), np.full_like(good_gamma, np.nan)
b.reset_params()
print(b.pi, b.logL)
assert np.allclose(b.pi, good_pi) and np.isfinite(b.logL)
''')

bug("c12-no-reset", "C12", [
    ("inference/bmm.py", "            if np.isnan(self.logL):\n                self.reset_params()\n                print(self.logL)\n                break\n",
     "            if np.isnan(self.logL):\n                break\n")],
    "buffers of thousands of bits, on which a component loses every sample exactly",
    "the mixture is left with not-a-number means, weights and scores",
    '''
from inference import BMM
rs = np.random.RandomState(0)
for t in range(12):
    p = rs.randint(0, 2, (3, 9000))
    x = p[rs.randint(0, 3, 10)] ^ (rs.random_sample((10, 9000)) < 0.02)
    b = BMM(6, 6)
    b.fit(x)
    assert np.all(np.isfinite(b.mu)) and np.isfinite(b.score(x)), t
''')

bug("c13-asymmetric-channel", "C13", [
    ("inference/dude.py", '''            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
                                                                                           :, observation]
            # posterior_p = self.smooth_posterior(empirical_p, observation)
            cost = np.matmul(posterior_p, self.loss_matrix)[0]
            estimate = np.argmin(cost)
            return estimate, cost[estimate]''',
     '''            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
                observation]
            # posterior_p = self.smooth_posterior(empirical_p, observation)
            cost = np.matmul(posterior_p, self.loss_matrix)[0]
            estimate = np.argmin(cost)
            return estimate, cost[estimate]''')],
    "a channel whose transition matrix is not symmetric, hard decisions",
    "the online denoiser weighs by Pr(out | observation) instead of Pr(observation | in)",
    '''
from inference import OnlineDude
pi = np.array([[0.9, 0.1], [0.4, 0.6]])
loss = np.array([[0, 1], [1, 0]])
d = OnlineDude(pi, loss, 1)
seq = [0, 1, 0, 0, 1, 1, 0, 1, 0, 0]
counts, ctx, ok = {}, None, True
for x in seq:
    est, cost = d.denoise_sample(x)
    if ctx is not None:
        counts.setdefault(ctx, np.zeros(2))[x] += 1
        want = (counts[ctx] @ np.linalg.inv(pi) * pi[:, x]) @ loss
        assert abs(cost - want.min()) < 1e-9, (cost, want)
    ctx = x
''')

bug("c14-input-overwritten", "C14", [
    ("inference/entropy_mle.py", "        llr = observation.copy() if self.soft_input else", "        llr = observation if self.soft_input else")],
    "soft input, a warm model, and a caller who uses its array again",
    "the caller's channel values are overwritten with the denoised ones",
    '''
from inference import EMLE
e = EMLE(0.05, conf_center=2)
x = np.array([1.5, -2.0, 0.5])
for _ in range(6):
    e.denoise_buffer(x)
print(x)
assert np.array_equal(x, [1.5, -2.0, 0.5])
''')

bug("c15-flip-in-place", "C15", [
    (EBD, "        prediction = np.array(observation, dtype=np.int_)\n", "        prediction = np.asarray(observation, dtype=np.int_)\n")],
    "hard bits given as an integer array, a failed first decoding and a known model",
    "the flipping decoder writes the model's bits into the caller's word",
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
s = Stub(20, 16)
model = np.column_stack((np.zeros(16), np.ones(16)))
d = EntropyBitwiseFlippingDecoder(s, 16, 0.5, 0, model=model)
w = np.zeros(20, dtype=np.int_)
s.est = np.zeros(20, dtype=np.int_)
d.decode_buffer(w)
print(w)
assert not w.any()
''')

bug("c15-scheme4-variance", "C15", [
    (EBD, "            b_confidence *= 1 - np.exp(-0.1 / self.b_normalized_variance)",
     "            b_confidence *= 1 - np.exp(-0.1 / self.a_normalized_variance)")],
    "the weighted decoder with confidence scheme 4 and models of different variance",
    "the second model is trusted by the variance of the first",
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
s = Stub(20, 16)
d = EntropyBitwiseWeightedDecoder(s, 16, 2, 1e9, confidence=4, b_conf_center=2, b_conf_slope=1)
rs = np.random.RandomState(3)
w0 = np.array([1.0, -1.0] * 10)
for i in range(6):
    w = w0.copy()
    w[i % 3] *= -1
    hist = d.b_distribution.copy()
    n = len(s.inputs)
    d.decode_buffer(w)
p1 = hist[:, 1]
var = 2 * np.mean(p1 - p1 ** 2)
eps = np.finfo(float).eps
conf = 1 / (1 + np.exp(-(5 - 2) * 1)) * (1 - np.exp(-0.1 / var))
want = w.copy()
want[:16] += conf * np.log((1 - p1 + eps) / (p1 + eps))
print(np.abs(s.inputs[-1] - want).max())
assert np.allclose(s.inputs[-1], want)
''')

bug("c16-confidence-of-class-zero", "C16", [
    (CLD, "            size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0\n            confidence",
     "            size = max(data.shape[-1] if data.size > 0 else 0 for data in self.models_data)\n            confidence")],
    "more than one class, of which one has seen far fewer words",
    "a class with hardly any history is trusted as if it had the history of the largest class",
    STUB + '''
from decoders import ClassifyingEntropyDecoder
s = Stub(12, 8)
d = ClassifyingEntropyDecoder(s, 8, 0.5, 100, 1, 2, cluster=1, conf_center=1, conf_slope=2)
rs = np.random.RandomState(1)
for _ in range(6):
    d.update_model(np.zeros(8, dtype=int), 0)
d.update_model(np.ones(8, dtype=int), 1)
d.update_model(np.ones(8, dtype=int), 1)
llr = d.model_prediction(12, 1)
eps = np.finfo(float).eps
want = 1 / (1 + np.exp(-2.0)) * np.log(eps / (1 + eps))
print(llr[0], want)
assert np.allclose(llr[:8], want)
''')

bug("c17-forced-strength", "C17", [
    (MVD, "            max_llr = np.max(np.abs(observation))\n", "            max_llr = np.max(np.abs(modified_llr))\n")],
    "a constant field arrives damaged while another field is good (scaled up)",
    "forced bits are scaled twice by the valid factor",
    STUB + MAV + '''
from decoders import MavlinkRectifyingDecoder
from inference import BufferModel
mid = next(i for i, c in dialect.mavlink_map.items() if not any(c.array_lengths) and "char" not in c.fieldtypes and len(c.fieldnames) > 2)
cls = dialect.mavlink_map[mid]
b = frame(cls(*[1] * len(cls.fieldnames)))
m = BufferModel()
for _ in range(4):
    m.add_buffer(b, {0: mid})
n = len(b) * 8
s = Stub(n + 8, n)
d = MavlinkRectifyingDecoder(s, n, 0.5, 0.1, 1, 1.5, 0.5, data_model=m, cluster=False)
d.set_buffer_structures([{0: mid}])
bits = np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(int)
bits[6 * 8 + 3] ^= 1
bits[-4] ^= 1
llr = np.concatenate((1.0 - 2 * bits, np.ones(8))) * 2.0
d.decode_buffer(llr, np.array([51]))
print(np.abs(s.inputs[0]).max())
assert np.isclose(np.abs(s.inputs[0]).max(), 3.0)
''')

bug("c18-flip-applied-to-good", "C18", [
    (CUD, "                estimated_noiseless = np.around(self.distributions[cluster_id][:, 1]).astype(np.bool_)\n",
     "                estimated_noiseless = self.distributions[cluster_id][:, 1].astype(np.bool_)\n")],
    "a low entropy bit which was seen as one at least once, in a field found damaged",
    "a bit which the model expects to be zero, but which has been one now and then, counts as expected to be one",
    STUB + MAV + '''
from decoders import CombinedUnifiedDecoder
from inference import BufferModel
mid = next(i for i, c in dialect.mavlink_map.items() if c.fieldtypes[0] == "uint8_t" or "uint16_t" in c.fieldtypes)
cls = dialect.mavlink_map[mid]
i16 = next(i for i, t in enumerate(cls.fieldtypes) if t in ("uint8_t", "uint16_t"))
args = [1] * len(cls.fieldnames)
m = BufferModel()
for v in (10, 11, 10, 11, 12):
    args[i16] = v
    b = frame(cls(*args))
    m.add_buffer(b, {0: mid})
n = len(b) * 8
s = Stub(n + 8, n)
d = CombinedUnifiedDecoder(s, n, 0.5, 0.9, 1, 1.5, 0.5, 0.9, 100, data_model=m, cluster=False, conf_center=1, flip=True)
d.set_buffer_structures([{0: mid}])
args[i16] = 10
base = np.unpackbits(np.frombuffer(frame(cls(*args)), dtype=np.uint8)).astype(int)
dist = np.zeros((n, 2))
d.entropy_models_data[0] = np.tile(base[:, None], (1, 6))
p1 = np.where(base == 1, 1.0, 0.05)
d.distributions[0] = np.column_stack((1 - p1, p1))
from utils.information_theory import entropy
d.models_entropy[0] = entropy(d.distributions[0])
args[i16] = 170
bits = np.unpackbits(np.frombuffer(frame(cls(*args)), dtype=np.uint8)).astype(int)
bits[-16:] ^= 1
llr = np.concatenate((1.0 - 2 * bits, np.ones(8))) * 2.0
pos, _, names = 0, 0, 0
out = d.mavlink_model_prediction(llr.copy(), 0)
bad = out[2]
wrong = [i for i in np.flatnonzero(bad) if bits[i] == base[i]]
print(wrong)
assert not wrong and bad.any()
''')

bug("c19-shared-history", "C19", [
    (DUD, '''        self.dudes: list[list[OnlineDude]] = [[OnlineDude(channel_transition_matrix, loss_matrix, context_length,
                                                          hard_decision=False)
                                               for _ in range(model_length)] for _ in range(n_clusters)]
''', '''        self.dudes: list[list[OnlineDude]] = [[OnlineDude(channel_transition_matrix, loss_matrix, context_length,
                                                          hard_decision=False)
                                               for _ in range(model_length)]] * n_clusters
''')],
    "more than one class",
    "all classes share one denoiser per bit, so words of one class enter the history of another",
    STUB + '''
from decoders import ClassifyingDudeDecoder
s = Stub(10, 8)
d = ClassifyingDudeDecoder(s, 8, 100, 0, 2, 1, bit_flip=0.1, cluster=0, conf_center=0)
a, b = np.ones(10) * 2.0, -np.ones(10) * 2.0
for i in range(7):
    d.decode_buffer(a)
    if i < 6:
        d.decode_buffer(b if i % 3 else a)
one = s.inputs[-1]
s2 = Stub(10, 8)
d2 = ClassifyingDudeDecoder(s2, 8, 100, 0, 1, 1, bit_flip=0.1, cluster=0, conf_center=0)
for _ in range(7):
    d2.decode_buffer(a)
print(one, s2.inputs[-1])
assert np.allclose(one, s2.inputs[-1])
''')

bug("c20-shared-field-models", "C20", [
    (SM, "    def __init__(self, models: dict[str, FieldModel] = None, window_size: int | None = None):",
     "    def __init__(self, models: dict[str, FieldModel] = {}, window_size: int | None = None):"),
    (SM, "{} if models is None else models", "models")],
    "two decoders (or models) alive in one process",
    "all buffer models which were created without models of their own share one dictionary",
    MAV + '''
from inference import BufferModel
a, b = BufferModel(), BufferModel()
a.add_sample("x", 1, "uint8_t")
print(len(b))
assert len(b) == 0
''')

bug("c21-order2-reversed", "C21", [
    ("utils/random_sources.py", "        probabilities = transition_matrix[tuple(current_states)]\n",
     "        probabilities = transition_matrix[tuple(reversed(current_states))]\n")],
    "a chain of order two or more whose matrix is not symmetric in its history",
    "the history is looked up in the wrong order",
    '''
from utils.random_sources import generate_markov_samples
t = np.zeros((2, 2, 2))
t[0, 0] = [0, 1]
t[0, 1] = [0, 1]
t[1, 1] = [1, 0]
t[1, 0] = [1, 0]
got = generate_markov_samples(t, [0, 0], 8)
print(got)
for i in range(2, 8):
    assert t[got[i - 2], got[i - 1], got[i]] == 1
''')

bug("c22-precision-divisor", "C22", [
    ("utils/performance_analysis.py", "                _precision[label] = cm[label, label] / np.sum(cm[:, label])\n",
     "                _precision[label] = cm[label, label] / np.sum(cm[label, :])\n")],
    "a class without any prediction in the same matrix, so that the per class branch is taken",
    "the precision of the other classes is their recall",
    '''
from utils.performance_analysis import stats
cm = np.array([[3, 1, 0], [2, 2, 0], [1, 1, 0]])
_, rec, prec, f1, acc = stats(cm=cm)
print(prec)
assert np.allclose(prec, [0.5, 0.5, 0])
''')

bug("c23-prior-not-removed", "C23", [
    ("decoders/turbo.py", "            second_decoder_prior = llr1 - channel_word - first_decoder_prior",
     "            second_decoder_prior = llr1 - channel_word")],
    "at least two iterations without success",
    "the second decoder gets its own extrinsic information back",
    STUB + '''
from decoders.turbo import TurboDecoder


class First:
    def __init__(self):
        self.inputs = []

    def decode_buffer(self, w):
        self.inputs.append(w.copy())
        return (w < 0).astype(int), w * 1.5, False


class Second:
    def __init__(self):
        self.inputs = []

    def decode(self, w):
        self.inputs.append(w.copy())
        return (w < 0).astype(int), w + 1.0, False


f, s = First(), Second()
ch = np.array([1.0, -2.0, 3.0])
TurboDecoder(f, s, 2).decode_buffer(ch, np.array([], dtype=int))
p1 = np.zeros(3)
for it in range(2):
    assert np.allclose(f.inputs[it], ch + p1)
    p2 = (ch + p1) * 1.5 - ch - p1
    assert np.allclose(s.inputs[it], ch + p2), it
    p1 = ch + p2 + 1 - ch - p2
''')

bug("c24-distinct-buffers", "C24", [
    (SEG, "            self.received_buffers.append(buffer)\n            self.reception_count += 1\n",
     "            if buffer not in self.received_buffers:\n                self.received_buffers.append(buffer)\n            self.reception_count = len(self.received_buffers)\n")],
    "the same buffer received twice",
    "a repeated buffer is not kept and not counted",
    '''
from inference import BufferStructure
s = BufferStructure({0: 33})
b = bytes([0xFE, 28, 0, 1, 1, 33] + [0] * 30)
s.register_buffer(b)
s.register_buffer(b)
print(s.reception_count)
assert s.reception_count == 2 and len(s.received_buffers) == 2
''')

HCD = "mavlink_utils/HC_dialect.py"

bug("c04-sequence-wraps-early", "C04", [
    (HCD, "                self.seq = (self.seq + 1) % 256\n", "                self.seq = (self.seq + 1) % 255\n")],
    "255 messages sent over one link",
    "sequence number 255 is never sent",
    MAV + '''
import io
out = io.BytesIO()
m = dialect.MAVLink(out, 1, 1)
for _ in range(257):
    m.send(dialect.MAVLink_attitude_message(1, 0, 0, 0, 0, 0, 0))
data = out.getvalue()
size = len(data) // 257
seqs = [data[i * size + 2] for i in range(257)]
print(seqs[250:])
assert seqs == [i % 256 for i in range(257)]
''')

bug("c04-partial-frame-dropped", "C04", [
    (HCD, "                if self.buf_len() == 0 and self.buf_index != 0:\n", "                if self.buf_index != 0:\n")],
    "a chunk of a stream which ends in the middle of a frame which follows a complete one",
    "the bytes of an incomplete frame are thrown away, and the frame is lost",
    MAV + '''
import io
a = frame(dialect.MAVLink_attitude_message(1, 0, 0, 0, 0, 0, 0), 1)
b = frame(dialect.MAVLink_attitude_message(2, 0, 0, 0, 0, 0, 0), 2)
m = dialect.MAVLink(io.BytesIO())
m.robust_parsing = True
got = (m.parse_buffer(a + b[:10]) or []) + (m.parse_buffer(b[10:]) or [])
print([g.get_type() for g in got])
assert [g.get_seq() for g in got if g.get_type() == "ATTITUDE"] == [1, 2] and len(got) == 2
''')

bug("c09-format-renamed", "C09", [
    (SM, '            models = data.get("field_models")\n', '            models = data.get("fields")\n'),
    (SM, '            json.dump({"field_models": self._field_models,', '            json.dump({"fields": self._field_models,')],
    "a model file which was written by an earlier version",
    "models which were saved before can't be loaded any more",
    '''
from inference import BufferModel
m = BufferModel.load("runs/Feb_2023/data/model_2023.json")
print(len(m), m.model_size)
assert len(m) > 10 and m.model_size == 782
''')

bug("c11-sizes-not-weighted", "C11", [
    ("inference/clustering.py", "                mx = (len(self.clusters[c1]) + len(self.clusters[c2]))/2\n",
     "                mx = max(len(self.clusters[c1]), len(self.clusters[c2]))\n")],
    "at least four training buffers, so that pairs of clusters with different sizes compete",
    "the weight of a pair is the size of the larger cluster instead of the mean size",
    '''
from inference import BufferClassifier
from inference.clustering import Cluster


def cl(ones, n, w=12):
    p1 = np.array([o / n for o in ones])
    return Cluster(np.column_stack((1 - p1, p1)), 0, n)


# sizes 2 and 2 at distance d1, sizes 3 and 1 at distance d2 slightly smaller
from utils.information_theory import hellinger
c = BufferClassifier(1, 3, weight_scheme="linear")
rs = np.random.RandomState(3)
found = False
for seed in range(400):
    rs = np.random.RandomState(seed)
    cs = [cl(rs.randint(0, n + 1, 6), n) for n in (2, 2, 3, 1)]
    pairs = [(i, j) for i in range(4) for j in range(i + 1, 4)]
    h = {p: np.mean(hellinger(cs[p[0]].dist, cs[p[1]].dist)) for p in pairs}
    mean = sorted(pairs, key=lambda p: h[p] * (len(cs[p[0]]) + len(cs[p[1]])) / 2)
    mx = sorted(pairs, key=lambda p: h[p] * max(len(cs[p[0]]), len(cs[p[1]])))
    first = [h[p] * (len(cs[p[0]]) + len(cs[p[1]])) / 2 for p in mean[:2]]
    if mean[0] != mx[0] and first[1] - first[0] > 0.05:
        c = BufferClassifier(1, 3, weight_scheme="linear")
        c.clusters = list(cs)
        want = len(cs[mean[0][0]]) + len(cs[mean[0][1]])
        merged = cs[mean[0][0]]
        c.merge_clusters()
        assert len(merged) == want, (seed, mean[0], mx[0])
        found = True
        break
assert found
''')

bug("c14-window-counts-all", "C14", [
    ("inference/entropy_mle.py", "        if self.model_size < self.window_length or self.window_length == 0:\n",
     "        if self.model_size <= self.window_length or self.window_length == 0:\n")],
    "a window, and more buffers than it holds",
    "confidence counts one buffer more than the window",
    '''
from inference.entropy_mle import EMLE
e = EMLE(0.1, threshold=0.9, window_length=3, conf_center=2, conf_slope=1)
for _ in range(6):
    e.denoise_buffer(np.array([2.0, 2.0]))
out, cost = e.denoise_buffer(np.array([2.0, 2.0]))
eps = np.finfo(float).eps
want = 2 + 1 / (1 + np.exp(-1.0)) * np.log((1 + eps) / eps)
print(out, want)
assert np.allclose(out, want)
''')

bug("c16-learns-failed-estimate", "C16", [
    (CLD, "        else:  # update model from channel if data is bad\n            self.update_model(channel_bits, label)\n",
     "        elif self.train_models and self.models_data[label].size == 0:  # nothing better is known yet\n"
     "            self.update_model(channel_bits, label)\n"
     "        else:  # the decoder's estimate has fewer errors than the channel\n            self.update_model(model_bits, label)\n")],
    "a word which can't be decoded, after its class has data",
    "the model learns the estimate of a failed decoding instead of the received bits",
    STUB + '''
from decoders import ClassifyingEntropyDecoder
s = Stub(12, 8)
d = ClassifyingEntropyDecoder(s, 8, 0.5, 100, 0, 1, conf_center=1, conf_slope=2)
s.est = np.ones(12, dtype=int)
for _ in range(3):
    out = d.decode_buffer(np.ones(12) * 2.0)
print(out[6])
assert np.allclose(out[6][:, 0], 1)
''')

bug("c17-layout-of-last-word", "C17", [
    (MVD, "                if self.buffer_structures[label] is None:\n",
     "                if self.buffer_structures[label] is None or self.model.model_size % 8 == 0:  # follow changes\n")],
    "eight words learned, and a ninth one which decodes to another layout",
    "the layout of a class is replaced by that of a later word",
    STUB + MAV + '''
from decoders import MavlinkRectifyingDecoder
a = frame(dialect.MAVLink_attitude_message(1, 0, 0, 0, 0, 0, 0))
mid2, cls = next((i, c) for i, c in dialect.mavlink_map.items() if c.unpacker.size == 28 and i != a[5] and "char" not in c.fieldtypes and not any(c.array_lengths))
b = frame(cls(*[1] * len(cls.fieldnames)))
bits = lambda x: np.concatenate((np.unpackbits(np.frombuffer(x, dtype=np.uint8)).astype(int), np.zeros(8, dtype=int)))
n = 8 * len(a)
s = Stub(n + 8, n)
s.ok = True
d = MavlinkRectifyingDecoder(s, n, 0.1, 0.1, 1, 1.5, 0.5, cluster=False)
for _ in range(8):
    d.decode_buffer((1.0 - 2 * bits(a)) * 2, np.array([], dtype=int))
s.est = bits(b)
d.decode_buffer((1.0 - 2 * bits(b)) * 2, np.array([], dtype=int))
print(d.buffer_structures)
assert dict(d.buffer_structures[0]) == {0: a[5]}
''')

bug("c19-confidence-of-all-words", "C19", [
    (DUD, "        confidence = model_confidence(self.data_size[cluster_id], self.conf_center, self.conf_slope)\n",
     "        confidence = model_confidence(max(self.data_size), self.conf_center, self.conf_slope)\n")],
    "two classes of different sizes",
    "a class with few words is trusted as much as the largest one",
    STUB + '''
from decoders import ClassifyingDudeDecoder
a = np.ones(10) * 2.0
b = -a


def last(words):
    s = Stub(10, 8)
    d = ClassifyingDudeDecoder(s, 8, 100, 4, 2, 1, bit_flip=0.1, cluster=1, conf_center=4, conf_slope=1)
    for w in (a, a, b, b):  # training of the classifier
        d.decode_buffer(w)
    for w in words:
        d.decode_buffer(w)
    return s.inputs[-1]


few, many = last([b] * 5), last([a] * 9 + [b] * 5)
print(few, many)
assert np.allclose(few, many)
''')

bug("c25-short-tail-dropped", "C25", [
    ("runs/HC_eilat_July_2018/ecncoding_data.py", "            if (i+1)*encoder.k < len(binary_data):  # remaining tail to encode\n",
     "            if len(binary_data) - (i+1)*encoder.k >= 8:  # at least one byte remains to encode\n")],
    "a buffer which is a few bits longer than a multiple of the information length",
    "the last bits of a buffer are lost when they are less than a byte",
    '''
import pickle, shutil, tempfile
from runs.HC_eilat_July_2018 import ecncoding_data


class Encoder:
    k = 9
    n = 9

    def encode(self, bits):
        return np.array(bits, dtype=int)


d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    os.mkdir(os.path.join(d, "data"))
    pickle.dump({"50000": [{"bin": bytes([1, 2])}]}, open(os.path.join(d, "data", "hc_to_ship.pickle"), "wb"))
    os.chdir(d)
    words = ecncoding_data.encode_data(Encoder())
    os.chdir(cwd)
finally:
    shutil.rmtree(d)
print(words)
assert len(words) == 2
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, "data"))
    pickle.dump({"50000": [{"bin": bytes([1, 2, 3])}]}, open(os.path.join(d, "data", "hc_to_ship.pickle"), "wb"))
    os.chdir(d)
    words = ecncoding_data.encode_data(Encoder())
    os.chdir(cwd)
finally:
    shutil.rmtree(d)
print(words)
assert len(words) == 3
''')

bug("c26-padding-counts", "C26", [
    ("runs/clsutering_analysis/functions.py", "        predictions = -np.ones((n_classes, len(predicted_labels)))\n",
     "        predictions = np.zeros((n_classes, len(predicted_labels)))\n")],
    "given true labels of classes of different sizes",
    "the unused part of each class's row counts as members of cluster 0",
    '''
from runs.clsutering_analysis.functions import relabel
real = np.array([0, 1, 1, 1, 1, 1])
pred = np.array([1, 0, 0, 0, 1, 1])
got = relabel(pred, 2, real)[1]
print(got)
assert dict(got) == {0: 1, 1: 0}
''')

SIM = """
import glob, json, lzma, pickle, runpy, shutil, tempfile
import matplotlib
matplotlib.use("Agg")
REPO = os.getcwd()
HC = os.path.join(REPO, "runs", "HC_eilat_July_2018")
rng0 = np.random.default_rng
np.random.default_rng = lambda s=None: rng0(7 if s is None else s)


def simulate(script, first=0, **args):
    \"\"\"run a simulation in a scratch directory; its steps and summary\"\"\"
    d = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(d, "data"))
        os.mkdir(os.path.join(d, "results"))
        rec = pickle.load(open(os.path.join(HC, "data", "hc_to_ship.pickle"), "rb"))
        small = {k: [{"bin": bytes(x["bin"])} for x in v[first:first + 12]] for k, v in rec.items()}
        pickle.dump(small, open(os.path.join(d, "data", "hc_to_ship.pickle"), "wb"))
        for f in ("model_2018_all.json", "encoded_data_data_model_1_clusters.json"):
            shutil.copy(os.path.join(HC, "data", f), os.path.join(d, "data"))
        os.chdir(d)
        sys.argv = [script] + [x for k, v in args.items() for x in ("--" + k, str(v))]
        runpy.run_path(os.path.join(HC, script), run_name="__main__")
        steps = [pickle.load(open(f, "rb")) for f in glob.glob("*_simulation_*.pickle") + glob.glob("results/*_simulation_*.pickle")]
        summary = pickle.load(open(glob.glob("results/*/*summary*.pickle")[0], "rb"))
        return steps, summary, small
    finally:
        os.chdir(REPO)
        shutil.rmtree(d)
"""
HCR = "runs/HC_eilat_July_2018/"

bug("c27-window-of-one", "C27", [
    (HCR + "simulated_data_classifying_entropy_decoder.py", "window_len = args.window_len if args.window_len > 0 else None",
     "window_len = args.window_len if args.window_len > 1 else None")],
    "a run with a window of one buffer",
    "a simulation with a window of one buffer learns from all buffers",
    SIM + '''
from ldpc.decoder import DecoderWiFi, bsc_llr
from ldpc.wifi_spec_codes import WiFiSpecCode
from decoders import ClassifyingEntropyDecoder
steps, _, _ = simulate("simulated_data_classifying_entropy_decoder.py", N=8, nflips=1, minflip=0.04, maxflip=0.04, window_len=1,
                       conf_center=0, conf_slope=1.0, ent_threshold=0.8, processes=1, ldpciterations=8)
step = steps[0]
d = ClassifyingEntropyDecoder(DecoderWiFi(spec=WiFiSpecCode.N1944_R23, max_iter=8, decoder_type="BP"), model_length=1296,
                              entropy_threshold=0.8, clipping_factor=2, classifier_training=0, n_clusters=1, window_length=1,
                              conf_center=0, conf_slope=1.0, bit_flip=0.04, cluster=1)
for r, llr in zip(step["data"]["corrupted"], step["decoded_entropy"]["llr"]):
    assert np.allclose(d.decode_buffer(bsc_llr(p=0.04)(np.array(r, dtype=int)))[1], llr)
''')

bug("c27-first-parity-bit", "C27", [
    (HCR + "simulated_data_mavlink_decoding.py", "parity_errors = np.sum(errors >= encoder.k, axis=1)",
     "parity_errors = np.sum(errors > encoder.k, axis=1)")],
    "a word whose first parity bit is damaged",
    "an error in the first parity bit is reported neither as an error of the information nor of the parity",
    SIM + '''
steps, _, _ = simulate("simulated_data_mavlink_decoding.py", N=4, nflips=2, minflip=0.2, maxflip=0.4, processes=1, ldpciterations=1)
for s in steps:
    for e, i, p in zip(s["data"]["error_idx"], s["data"]["info_errors"], s["data"]["parity_errors"]):
        assert i + p == len(e), (i, p, len(e))
''')

bug("c27-third-layout", "C27", [
    (HCR + "simulated_data_combined_decoder.py",
     "    _, _, buffer_structure = bs.segment_buffer(binary_data[864:].tobytes())\n    buffer_structures.append(buffer_structure)\nelse:",
     "    _, _, buffer_structure = bs.segment_buffer(binary_data[864:].tobytes())\n    buffer_structures.append(buffer_structures[-1])\nelse:"
     )],
    "a run with three clusters",
    "in a run with three clusters the words of the third class are read by the layout of the second one",
    SIM + '''
from ldpc.decoder import DecoderWiFi, bsc_llr
from ldpc.wifi_spec_codes import WiFiSpecCode
from bitstring import Bits
from decoders import MavlinkRectifyingDecoder
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta
steps, _, rec = simulate("simulated_data_combined_decoder.py", N=3, nflips=1, minflip=0.02, maxflip=0.02, processes=1, n_clusters=3,
                         cluster=0, ldpciterations=2)
bs = BufferSegmentation(meta.protocol_parser)
x = Bits(bytes=rec["50000"][2]["bin"])
d = MavlinkRectifyingDecoder(DecoderWiFi(spec=WiFiSpecCode.N648_R34, max_iter=2, decoder_type="BP"), 648, 0.03, 0.08, 3, 2.0, 0.7, 100,
                             False, 50, BufferModel.load(os.path.join(HC, "data", "model_2018_all.json")), 40, 0.35,
                             segmentation_iterations=1)
d.set_buffer_structures([bs.segment_buffer(x[i:j].tobytes())[2] for i, j in ((0, 416), (416, 864), (864, 1224))])
step = steps[0]
for r, e, llr in zip(step["data"]["corrupted"], step["data"]["error_idx"], step["decoded_rectify"]["llr"]):
    assert np.allclose(d.decode_buffer(bsc_llr(p=0.02)(np.array(r, dtype=int)), e)[1], llr)
''')

TRIAL = SIM + '''
from scipy.io import loadmat
RUNS = os.path.join(REPO, "runs")


def trial(script, tx, rx, date="14", **args):
    """run a script of the trial of 2022 on a recording; its results"""
    d = tempfile.mkdtemp()
    try:
        for x in ("data", "results"):
            os.mkdir(os.path.join(d, x))
        shutil.copytree(os.path.join(RUNS, "Feb_2022", "spec"), os.path.join(d, "spec"))
        np.savetxt(os.path.join(d, "data", "feb_%s_tx.csv" % date), tx, fmt="%d", delimiter=",")
        np.savetxt(os.path.join(d, "data", "feb_%s_llr.csv" % date), rx, delimiter=",")
        shutil.copy(os.path.join(HC, "data", "model_2018_all.json"), os.path.join(d, "data", "model_2022.json"))
        os.chdir(d)
        sys.argv = [script, "--experiment_date", date] + [x for k, v in args.items() for x in ("--" + k, str(v))]
        runpy.run_path(os.path.join(RUNS, "Feb_2022", script), run_name="__main__")
        return pickle.load(lzma.open(glob.glob("results/*/*.xz")[0]))
    finally:
        os.chdir(REPO)
        shutil.rmtree(d)


gen = rng0(3)
rec = pickle.load(open(os.path.join(HC, "data", "hc_to_ship.pickle"), "rb"))["50000"]
part = loadmat(os.path.join(RUNS, "Feb_2022", "spec", "4098.mat"))["H"][:, :1003].toarray().astype(int)


def word(i):
    b = bytes(rec[i]["bin"])
    x = np.concatenate([np.unpackbits(np.frombuffer(b[:72] + b[108:153] + bytes(6), dtype=np.uint8)), np.zeros(19, dtype=int)])
    return np.concatenate([x, part @ x % 2]).astype(int)
'''

bug("c28-stale-distance", "C28", [
    ("runs/Feb_2022/experimental_data_run.py",
     "    entropy_success = d[2]\n    if tx[tx_idx, 0] < 2:  # valid tx identified\n        hamm = hamming_distance(d[0], tx[tx_idx, :])\n"
     "    else:\n        hamm = -1\n",
     "    entropy_success = d[2]\n    if hamm > 0:  # otherwise there is nothing to correct\n"
     "        hamm = hamming_distance(d[0], tx[tx_idx, :])\n")],
    "a word which the plain decoder corrects and the entropy decoder does not",
    "the distance of the plain decoder's word is reported for the entropy decoder's",
    TRIAL + '''
# two kinds of telemetry: a model of the first one, trusted at once, spoils a slightly noisy word of the second
tx = np.array([word(0)] * 3 + [word(60)])
y = 1 - 2.0 * tx
rx = y * 6
rx[3] = (y[3] + 0.75 * gen.normal(size=4098)) * 3
res = trial("experimental_data_run.py", tx, rx, conf_center=0, conf_slope=5.0, ent_threshold=0.9, clipping_factor=9, ldpciterations=20,
            raw_ber=0.01)
t = res["decoded_entropy"]
dist = [int((np.asarray(e) != w).sum()) for e, w in zip(t["estimate"], tx)]
print(dist, list(t["hamming"]), list(res["decoded_ldpc"]["hamming"]))
assert dist == [int(x) for x in t["hamming"]]
''')

bug("c28-zero-counts-as-one", "C28", [
    ("runs/Feb_2022/experimental_mavlink_based.py", "errors[tx_idx, :] = tx[tx_idx, :] != (rx[tx_idx, :] < 0)",
     "errors[tx_idx, :] = tx[tx_idx, :] != (rx[tx_idx, :] <= 0)")],
    "a received value of exactly zero",
    "a zero at which a 0 was sent is reported as an error, though it is decided as 0",
    TRIAL + '''
tx = np.array([word(0), word(1)])
rx = (1 - 2.0 * tx) * 5
rx[1, np.flatnonzero(tx[1] == 0)[:5]] = 0
res = trial("experimental_mavlink_based.py", tx, rx, ldpciterations=2)
print(res["input_ber"])
assert not np.any(res["input_ber"])
''')

bug("c29-sequence-per-buffer", "C29", [
    (HCR + "data/msg_creator.py", "        d[\"chamber_status\"] = chamber\n        buffer += chamber.pack(mav)\n        mav.seq = (mav.seq + 1) % 256",
     "        d[\"chamber_status\"] = chamber\n        buffer += chamber.pack(mav)\n        mav.seq = (mav.seq + 1) % 255")],
    "more than 50 buffers, so that a chamber message carries sequence number 254",
    "after sequence number 254 of a chamber message comes 0 instead of 255",
    SIM + '''
from scipy.io import savemat
d = tempfile.mkdtemp()
try:
    n = 16600
    t = np.arange(n, dtype=np.uint32) * 1000
    fields = {"global_position_int": (1, 11), "pinger_data": (0, 3), "attitude": (1, 7), "svs_status": (0, 6), "chamber_status": (0, 5)}
    mat = {}
    for name, (cell, m) in fields.items():
        r = np.empty((1, 1), dtype=[("f%d" % i, object) for i in range(m)])
        for i in range(m):
            r["f%d" % i][0, 0] = (t if i == 0 else np.zeros(n, dtype=np.float32 if name == "attitude" else np.uint8)).reshape(-1, 1)
        cells = np.empty((1, 2), dtype=object)
        cells[0, cell], cells[0, 1 - cell] = r, np.zeros((1, 1))
        mat[name] = cells
    os.chdir(d)
    savemat("20_08_2018_13_12_11.mat", mat)
    runpy.run_path(os.path.join(HC, "data", "msg_creator.py"), run_name="__main__")
    made = pickle.load(open("hc_to_ship.pickle", "rb"))
finally:
    os.chdir(REPO)
    shutil.rmtree(d)
last = None
for x in made["20000"]:
    b, i = bytes(x["bin"]), 0
    while i < len(b):
        assert last is None or b[i + 2] == (last + 1) % 256, (last, b[i + 2])
        last = b[i + 2]
        i += b[i + 1] + 8
''')

bug("c29-log-stripped", "C29", [
    ("runs/Feb_2022/data/ship_log_reader.py", "        log_file = f.read()\n", "        log_file = f.read().strip()\n")],
    "the last payload of a log ends in bytes which look like white space",
    "bytes such as 0x0a or 0x20 at the end of a log's last payload are lost",
    SIM + '''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "ship_logs", "14_02_2022_10_00_00")
    os.makedirs(f)
    payload = bytes(range(100, 220)) + b"\\x20\\x0a\\x0d"
    with open(os.path.join(f, "1_Rafael_rx.log"), "wb") as g:
        g.write(b"Aquisition 1 time: 14_02_2022_10_00_01\\r\\ndata size: 123\\r\\ndata success: 1\\r\\n" + payload)
    os.chdir(d)
    got = runpy.run_path(os.path.join(REPO, "runs", "Feb_2022", "data", "ship_log_reader.py"))["acquisitions"]
finally:
    os.chdir(REPO)
    shutil.rmtree(d)
print(got)
assert len(got) == 1 and got[0]["payload"] == payload
''')

BFS = HCR + "simluated_data_entropy_bf_decoders.py"
bug("c30-loop-free-rate", "C30", [
    (BFS, 'step_results["entropy_no_loop_success_rate"] = sum(int(res[-1] == 0) for res in decoded_entropy_mwbf_no_loop) / float(n)',
     'step_results["entropy_no_loop_success_rate"] = sum(int(res[2]) for res in decoded_entropy_mwbf_no_loop) / float(n)')],
    "a word whose last allowed flip makes it the word which was sent (the decoder has not noticed)",
    "a word which the loop-free decoder with a model restores with its last flip is counted as a failure",
    SIM + """
from ldpc.decoder import WbfDecoder
for p in (7.5, 7.0, 6.5):
    steps, summary, _ = simulate("simluated_data_entropy_bf_decoders.py", N=8, nflips=2, minflip=p, maxflip=8.0, processes=2,
                                 ldpciterations=3)
    for s in steps:
        want = np.mean([h == 0 for h in s["decoded_entropy_no_loop"]["hamming"]])
        assert np.isclose(s["entropy_no_loop_success_rate"], want), (p, want)
""")

bug("c30-shared-flipping-decoder", "C30", [
    (BFS, """    mwbf_entropy_decoder = ClassifyingEntropyDecoder(
        WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.MWBF,""",
     """    mwbf_entropy_decoder = ClassifyingEntropyDecoder(
        WbfDecoder(h=h, max_iter=max(2, ldpc_iterations - 1), decoder_variant=WbfVariant.MWBF,""")],
    "a word for which the modified decoder uses all its iterations",
    "with a model of the source the modified bit flipping decoder has one iteration less than asked for",
    SIM + """
from ldpc.decoder import WbfDecoder
steps, _, _ = simulate("simluated_data_entropy_bf_decoders.py", N=2, nflips=1, minflip=4.0, maxflip=4.0, processes=1, ldpciterations=80)
for it, ok in zip(steps[0]["decoded_entropy_mwbf"]["iterations"], steps[0]["decoded_entropy_mwbf"]["decode_success"]):
    assert ok or it == steps[0]["max_ldpc_iterations"] - 1, (it, ok)
steps, _, _ = simulate("simluated_data_entropy_bf_decoders.py", N=2, nflips=1, minflip=3.0, maxflip=3.0, processes=1, ldpciterations=4)
for it, ok in zip(steps[0]["decoded_entropy_mwbf"]["iterations"], steps[0]["decoded_entropy_mwbf"]["decode_success"]):
    assert ok or it == steps[0]["max_ldpc_iterations"] - 1, (it, ok)
""")

CAN = SIM + """
import subprocess
from scipy.io import loadmat
SCRIPT = os.path.join(REPO, "scripts", "classifier_analysis.py")


def analyse(first, words, edit=None, **args):
    scratch = tempfile.mkdtemp()
    try:
        data = os.path.join(scratch, "runs", "HC_eilat_July_2018", "data")
        os.makedirs(data)
        os.makedirs(os.path.join(scratch, "scripts", "results"))
        with open(os.path.join(HC, "data", "hc_to_ship.pickle"), "rb") as f:
            rec = pickle.load(f)
        rec = {k: [{"timestamp": i, "bin": bytes(x["bin"])} for i, x in enumerate(v[first:first + words])] for k, v in rec.items()}
        with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
            pickle.dump(rec, f)
        with open(os.path.join(HC, "data", "model_2018_all.json")) as f:
            model = json.load(f)
        for m in model["field_models"].values():
            m["samples"] = edit(m["samples"]) if edit else m["samples"][:50]
        with open(os.path.join(data, "model_2018_all.json"), "w") as f:
            json.dump(model, f)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        argv = [x for k, v in args.items() for x in ("--" + k, str(v))]
        subprocess.run([sys.executable, "-W", "ignore", SCRIPT, "--processes", "1"] + argv, cwd=os.path.join(scratch, "scripts"), env=env,
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        mats = sorted(glob.glob(os.path.join(scratch, "scripts", "results", "*", "*.mat")), key=lambda x: "summary" in x)
        return loadmat(mats[0])["results"].ravel(), loadmat(mats[1]), rec
    finally:
        shutil.rmtree(scratch)


def rows(x, n):
    return [np.ravel(v) for v in x.ravel()] if x.dtype == object else list(x.reshape(n, -1))
"""

bug("c31-unforced-errors", "C31", [
    ("scripts/classifier_analysis.py", "    missed_forced_bits = np.setdiff1d(errors, forced_bits)\n",
     "    missed_forced_bits = np.setdiff1d(errors, correctly_forced_bits) if forced_bits.size > 1 else errors[errors < buffer_len_bits // 2]\n")],
    "a word with at most one forced bit and errors in its second half",
    "errors in the second half of a word in which hardly any bit is forced are missing from the errors which forcing missed",
    CAN + """
vary = lambda x: [v + k if not isinstance(v, str) else v for k, v in enumerate(x[:20])]
results, _, _ = analyse(3, 3, edit=vary, nflips=1, minflip=0.03, maxflip=0.03, threshold=0.1)
s = results[0][0, 0]
n = 3
f, e = s["forcing"][0, 0], s["errors"]
for missed, hit, errors in zip(rows(f["missed_forced_bits"], n), rows(f["correctly_forced_bits"], n), e):
    assert sorted(missed.tolist() + hit.tolist()) == sorted(errors.tolist())
""")

bug("c31-threshold-of-half", "C31", [
    ("scripts/classifier_analysis.py", "bad_fields: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < thr]",
     "bad_fields: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < min(thr, 0.5)]")],
    "a threshold above one half",
    "fields whose probability lies between one half and a higher threshold are not counted as bad",
    CAN + """
results, _, _ = analyse(3, 3, nflips=1, minflip=0.02, maxflip=0.02, threshold=0.999)
s = results[0][0, 0]
from inference import BufferModel, BufferSegmentation
from protocol_meta import dialect_meta as meta
d = s["data"][0, 0]
first = np.array(rows(d["encoded"], 3)[2][:1224], dtype=np.uint8)
layout = BufferSegmentation(meta.protocol_parser).segment_buffer(np.packbits(first).tobytes())[2]
index = BufferModel.unpack_structure(True, 243, layout)[0]
for bad, bits in zip(rows(s["classifier"][0, 0]["bad_fields"], 3), rows(s["classifier"][0, 0]["bad_bits"], 3)):
    fields = set(int(x) for x in np.asarray(index)[bits.astype(bool)] if x >= 0)
    assert fields == set(int(x) for x in bad), (fields ^ set(int(x) for x in bad))
""")

bug("c31-mixture-on-all", "C31", [
    ("runs/clsutering_analysis/clustering_analysis.py", "    bmm.fit(X_train)\n", "    bmm.fit(buffers if train_with_errors else X_train)\n")],
    "a run with errors in training",
    "the mixture model to which clustering is compared has seen the words it is asked about",
    SIM + """
import time
import inference
seen = []
fit = inference.BMM.fit
inference.BMM.fit = lambda self, x: (seen.append(len(x)), fit(self, x))[1]
scratch = tempfile.mkdtemp()
os.mkdir(os.path.join(scratch, "results"))
with open(os.path.join(HC, "data", "hc_to_ship.pickle"), "rb") as f:
    rec = pickle.load(f)
x = np.array([np.unpackbits(np.frombuffer(bytes(t["bin"]), dtype=np.uint8)) for t in rec["50000"][:10]])
np.savetxt(os.path.join(scratch, "telemetry_hc_tx_info_bits_2023.csv"), x, fmt="%d", delimiter=",")
folder = os.path.join(REPO, "runs", "clsutering_analysis")
sys.path[:0] = [REPO, folder]
os.chdir(scratch)
try:
    for e in ("0", "1"):
        sys.argv = ["clustering_analysis.py", "--n_training", "12", "--n_runs", "1", "--n_jobs", "1", "--train_with_errors", e]
        runpy.run_path(os.path.join(folder, "clustering_analysis.py"), run_name="__main__")
        time.sleep(1.1)
finally:
    os.chdir(REPO)
    shutil.rmtree(scratch)
assert seen == [12, 12], seen
""")
