From 8f9db33a81a5b7044b3bd873e2ef03857e51ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 01/54] fix: count array elements in message payload length

MavlinkDialectMeta summed one element per field, so the payload length of every
message with an array field was wrong and such messages were never recognised.
---
 protocol_meta/protocol_meta.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol_meta/protocol_meta.py b/protocol_meta/protocol_meta.py
index 79208a6..18a5d7c 100644
--- a/protocol_meta/protocol_meta.py
+++ b/protocol_meta/protocol_meta.py
@@ -55,8 +55,7 @@ class MavlinkDialectMeta:
         obj: type = dialect.mavlink_map.get(msg_id)  # type: ignore
         if not issubclass(obj, dialect.MAVLink_message):
             raise ValueError()
-        field_types = obj.fieldtypes  # type: ignore
-        return sum(self.field_lengths[field] for field in field_types)
+        return obj.unpacker.size  # type: ignore  # wire size of payload, counting every element of array fields
 
 
 mav_obj = dialect.MAVLink(1)
-- 
2.43.0


From ae6efbb529638eaf55ad5cb589752a95a47db925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 02/54] fix: pack info bits into bytes before segmenting

info_bits returns an array of one integer per bit; its tobytes() is eight bytes
per bit, so no message was ever found and padding the result raised ValueError.
---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..fc686b8 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -185,14 +185,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -288,7 +288,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..523a9f0 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -215,14 +215,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -318,7 +318,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From 633a973ccf38397f0f8398b51a43c68d6de31768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 03/54] fix: compare counts with counts in Cluster.hard_bits

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..1b69886 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From 5ac1d992310a141ec72b8710a393e1ba7fa85919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 04/54] fix: keep looking for a valid header when an exact
 match is too long

hamming_distance_2_valid_header stopped at a zero distance candidate even when it
was rejected by max_len, returning a non minimal distance or no message id.
---
 protocol_meta/msg_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..9a1243e 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -58,7 +58,7 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
         if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
             min_dist = candidate_dist
             chosen_msg_id = msg_id
-        if candidate_dist == 0:
+        if min_dist == 0:
             break
 
     dist += min_dist
-- 
2.43.0


From 30b3238599282fe709e9d209b876253befe6a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 05/54] fix: get_msg_fields always returns a pair

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..4aef1d1 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From d9ca9d985df8a81ca175f707879997e8a485dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 06/54] fix: adheres_to_structure answers False for short
 buffers and unknown ids

---
 inference/buffer_segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 4aef1d1..45b3e73 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -63,8 +63,8 @@ class BufferStructure:
         :param buffer: candidate buffer
         """
         for idx, msg_id in self.structure.items():
-            hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
-            if hdr.msg_id != msg_id:
+            hdr = buffer[idx:idx + meta.header_len]
+            if len(hdr) != meta.header_len or hdr[-1] != msg_id:
                 return False
         return True
 
-- 
2.43.0


From 7fc03bf33b01985f5bb587ea2dc3a1531f978047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 07/54] fix: hellinger distance of equal distributions is not
 NaN

Rounding can push the Bhattacharyya coefficient above 1.
---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..217c714 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -99,9 +99,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk), axis=1), 0))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk)), 0))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From 82f5a99dbe1667d85b1fa52d6602c59b8793dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 08/54] fix: reject every floating point dtype in
 prob_with_alphabet

---
 utils/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 217c714..66972e7 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -13,7 +13,7 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
-    if data.dtype in [float, np.dtype(np.float_)]:
+    if np.issubdtype(data.dtype, np.floating):
         raise UnsupportedDtype()
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
-- 
2.43.0


From 2e8439c360b8640943e34f4e0988409c736502ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 09/54] fix: stats honours its no true positives convention

np.bool_ is never `True` by identity.
---
 utils/performance_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..b03650b 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -14,7 +14,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
@@ -27,7 +27,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             if denominator[label] > 0:  # if there are some correct predictions for this class
                 _f1[label] = 2 * (_precision[label] * _recall[label]) / denominator[label]
             else:  # if there are no correct predictions for this class
-                _f1[label] = 1 if no_true_positives[label] is True else 0  # if there are no true positives, then 1, else 0
+                _f1[label] = 1 if no_true_positives[label] else 0  # if there are no true positives, then 1, else 0
     _accuracy = np.sum(np.diag(cm)) / np.sum(cm)
     return cm, _recall, _precision, _f1, _accuracy
 
-- 
2.43.0


From a3e7756c35e46a5d7dc63329b903837b15ab8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 10/54] fix: ber counts differing bits

Subtracting unsigned arrays wraps around and boolean arrays cannot be subtracted.
---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index b03650b..b359e94 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(ground_truth != predicted) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From 5e98f59724e3f1a2809b66e8cb98c0ee55f305c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:04 +0000
Subject: [PATCH 11/54] fix: generate_markov_samples conditions on the previous
 states

It used the tail of the output array, which is still zeros.
---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From 86bce019fb95c1d7a6d1ca008409e63c15d4c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 12/54] fix: bit models have a column per bit value

prob infers the alphabet from the data, so when every observed bit was equal the
distribution had a single column: decoders raised IndexError or read Pr(1) as Pr(0).
---
 decoders/classifiying_decoder.py     |  2 +-
 decoders/combined_decoder.py         |  2 +-
 decoders/combined_unified_decoder.py |  2 +-
 decoders/entropy_bitwise_decoder.py  |  8 ++++----
 inference/clustering.py              |  2 +-
 utils/information_theory.py          | 10 ++++++----
 6 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..30e6a19 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -154,7 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
+        dist = prob(self.models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index fc686b8..c2a7058 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -111,7 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 523a9f0..db668d5 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -121,7 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], [0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..319b522 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -97,7 +97,7 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, [0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +207,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, [0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +372,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            self.a_distribution = prob(self.model_a_data, [0, 1])
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +424,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            self.b_distribution = prob(self.model_b_data, [0, 1])
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
diff --git a/inference/clustering.py b/inference/clustering.py
index 1b69886..f136dfd 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -63,7 +63,7 @@ class BufferClassifier:
         self.samples += 1
         if self.samples < self.min_data_size:
             sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            self.__add_cluster(prob(sample, [0, 1]))
             return -1
         if not self.init:
             self.merge_clusters()
diff --git a/utils/information_theory.py b/utils/information_theory.py
index 66972e7..5f465d8 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -6,10 +6,11 @@ from utils.custom_exceptions import UnsupportedDtype
 import numpy.typing as npt
 
 
-def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_], list[Any]]:
+def prob_with_alphabet(data: npt.NDArray[Any], symbols: Optional[list[Any]] = None) -> tuple[npt.NDArray[np.float_], list[Any]]:
     """Estimate the probability distribution given samples. Doesn't work with floating point values.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param symbols: sorted alphabet of a 2D array. If None, it is inferred from the data.
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
@@ -18,7 +19,7 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
     if data.ndim == 2:
-        alphabet: list[Any] = np.unique(data).tolist()
+        alphabet: list[Any] = np.unique(data).tolist() if symbols is None else symbols
         alphabet_size = len(alphabet)
         pr: npt.NDArray[np.float_] = np.zeros((data.shape[0], alphabet_size))
         num_samples = data.shape[1]
@@ -39,13 +40,14 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
         raise ValueError("only scalar and vector RV's currently supported (dim=1,2)")
 
 
-def prob(data: npt.NDArray[Any]) -> npt.NDArray[np.float_]:
+def prob(data: npt.NDArray[Any], symbols: Optional[list[Any]] = None) -> npt.NDArray[np.float_]:
     """A wrapper around prob_with_alphabet which doesn't return the alphabet.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param symbols: sorted alphabet of a 2D array. If None, it is inferred from the data.
     :return: a 2D array of probabilities. Rows are RV dimension, and columns are alphabet size.
     """
-    pr, alphabet = prob_with_alphabet(data)
+    pr, alphabet = prob_with_alphabet(data, symbols)
     return pr
 
 
-- 
2.43.0


From 2ecdf975719869bb0dcef706a9667bd12af07f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 13/54] fix: use the model when bit 0 is the only structural
 bit

structural_elements holds indices, so any() is False for the single index 0.
---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 30e6a19..c4a17f4 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -174,7 +174,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -228,7 +228,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index c2a7058..10f7ba1 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index db668d5..0b5a78e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 319b522..6a6d8a9 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -456,7 +456,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From e8483f9934d3714a96dd7eb40425dda35a2047da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 14/54] fix: clip llr by the magnitude of the channel llr

The maximal signed llr is zero or negative for words of ones, which erased or
inverted the clipped values.
---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index c4a17f4..cd58dbf 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 6a6d8a9..105bfce 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -113,7 +113,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -490,7 +490,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From af00f42ce73dfd281d96209c4e0a06d890d32a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 15/54] fix: make confidence scheme 2 reachable

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 105bfce..89fd1a6 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -477,7 +477,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From e130da74edcb3536e3daf467e52bdacc6b24e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 16/54] fix: variance confidence scheme works before both
 models have data

It raised AttributeError (MLE) or ZeroDivisionError (Bayes).
---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 89fd1a6..48a08cf 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -272,13 +272,13 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         self.estimator = estimator
         self.bit_flip = bit_flip
         self.corrected_dist = corrected_dist
+        self.a_normalized_variance = 1.0  # variance of a uniform variable as long as there is no data
+        self.b_normalized_variance = 1.0
         if estimator == "Bayes":
             self.a_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From cdbede0555d29a0864976d84d128486bcabae641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 17/54] fix: flipping decoder indexes its model by model bit

Codeword indices differ from model indices unless info bits come first.
---
 decoders/entropy_bitwise_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 48a08cf..b61beb9 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -222,7 +222,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         # index of structural (low entropy) elements among codeword
         self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
-        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
+        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[
+            self.entropy < self.entropy_threshold]
         prediction = np.array(observation, dtype=np.int_)
         prediction[self.structural_elements] = self.structural_values
         return prediction
-- 
2.43.0


From 4f7ebf34fe83999e5da23424d98ec17d9ce381b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 18/54] fix: non finite samples don't break a field model

A flipped exponent bit turns a float into inf or nan, after which norm.fit raised
ValueError for every later prediction.
---
 inference/statistical_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..3c2e446 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -72,8 +72,9 @@ class FieldModel:
         return self._std
 
     def _update(self) -> None:
-        if self.samples:
-            self._mean, self._std = norm.fit(self.samples)
+        samples = [sample for sample in self.samples if np.isfinite(sample)]  # bit errors may turn a float to inf or nan
+        if samples:
+            self._mean, self._std = norm.fit(samples)
             self._up2date = True
 
     def pdf(self, x: int) -> float:
-- 
2.43.0


From edac75bc5b6799c6dceb4e45208b35a18bfb9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 19/54] fix: num2bits handles char and saturates integers

The char format takes a bytes object, and a float mean of 64 bit samples may round
to a value just out of range.
---
 inference/statistical_models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 3c2e446..3d4ea0e 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -14,11 +14,12 @@ import struct
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     # cast first
     if field_type == "char":
-        num = ord(num)
+        num = bytes([ord(num)])
     elif "uint" in field_type:
-        num = int(round(num)) if num >= 0 else 0
+        num = min(int(round(num)), 2 ** (8 * field_lengths[field_type]) - 1) if num >= 0 else 0
     elif "int" in field_type:
-        num = int(round(num))
+        bound = 2 ** (8 * field_lengths[field_type] - 1)
+        num = max(-bound, min(int(round(num)), bound - 1))
     elif field_type != "float":
         raise ValueError(f"field_type {field_type} is not supported")
     fmt = format_strings[field_type]
-- 
2.43.0


From 8f260c4cb626a63f9f40511e2a71bda68b95c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 20/54] fix: fields without a model don't break prediction

predict returned None for them, which the decoders cannot handle: a decoder which
learns a given buffer structure failed on its first buffer.
---
 inference/statistical_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 3d4ea0e..e26efd7 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -211,6 +211,8 @@ class BufferModel:
                 valid_bits_probability[bit_2_val_idx == field_idx] = val
                 bits_std[bit_2_val_idx == field_idx] = std
                 valid_field_probability[field_idx] = (field_name, val, std)
+            else:  # field has no model
+                valid_field_probability[field_idx] = (field_name, np.nan, np.nan)
         return valid_field_probability, valid_bits_probability, bits_std
 
     @staticmethod
@@ -375,7 +377,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models.keys():
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From e35206c34fb132e8f1709650ff10a03b1e9c9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 21/54] fix: DUDE decoder doesn't modify the caller's llr

---
 decoders/classifying_DUDE_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..d2649a0 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = channel_llr.copy()  # leave the caller's array as is
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-- 
2.43.0


From 4c61c2d730b27099f6cc8af241c29b3237bb1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 22/54] fix: MAVLink decoder ignores unlabeled buffers when
 learning

During classifier training label is -1, which indexed the last cluster.
---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..b5d23da 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:  # label is negative during training phase of classifier
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From e89636c796b761b2b1400c5c0876f897de6c21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 23/54] fix: forcing analysis works before a structure is known

---
 decoders/combined_decoder.py         | 4 +++-
 decoders/combined_unified_decoder.py | 4 +++-
 decoders/mavlink_decoder.py          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 10f7ba1..fe30803 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -142,7 +142,7 @@ class CombinedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -222,6 +222,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 0b5a78e..3243d0d 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -152,7 +152,7 @@ class CombinedUnifiedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -252,6 +252,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index b5d23da..465e09a 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -169,7 +169,7 @@ class MavlinkRectifyingDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -249,6 +249,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From 0b292197ce5714e928bea02eb088bc068e01a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 24/54] fix: CombinedDecoder models only model_length bits

Every buffer raised IncorrectBufferLength unless model_length was the code length.
---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index fe30803..4b45c3b 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -297,7 +297,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[:self.model_length], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[:self.model_length], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 7f8421c644cda53b8accc207e32405ea82ae0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:57 +0000
Subject: [PATCH 25/54] fix: bit forcing uses the model of the classified
 cluster

It always used cluster 0, and failed when no window length is set.
---
 decoders/classifiying_decoder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index cd58dbf..ab13dde 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -192,7 +192,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -224,10 +224,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
-                if size>= self.window_length:
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
+                if self.window_length is None or size >= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From 0de21cfee0cd5ce47e741ea8162169771c73babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:38 +0000
Subject: [PATCH 26/54] fix: buffer models support array fields

unpack_structure read the digits of an array's format as field types and raised
TypeError. Elements of an array are now fields of their own.
---
 inference/statistical_models.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index e26efd7..79dd596 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -2,7 +2,7 @@ from typing import Any
 from numpy import ndarray
 from scipy.stats import norm
 from scipy.special import erf
-from protocol_meta import field_lengths, dialect_meta, format_strings, inv_format_strings
+from protocol_meta import field_lengths, dialect_meta, format_strings
 import json
 from numpy.typing import NDArray
 import numpy as np
@@ -235,7 +235,9 @@ class BufferModel:
             # unpack fields from header
             field_values += struct.unpack('<BBBBBB', buffer[byte_idx:byte_idx + dialect_meta.header_len])
             # unpack fields from payload
-            field_values += mavlink_map[msg_id].unpacker.unpack(
+            payload_format = mavlink_map[msg_id].unpacker.format.replace('s', 'B').replace('c', 'B')  # chars are numbers
+            field_values += struct.unpack(
+                payload_format,
                 buffer[byte_idx + dialect_meta.header_len:
                        byte_idx + dialect_meta.header_len + dialect_meta.msgs_payload_length[msg_id]])
         return field_values
@@ -268,10 +270,14 @@ class BufferModel:
                                     f'{mavlink_map[msg_id].name}_srcComponent', f'{mavlink_map[msg_id].name}_msgId']
             ordered_field_types += ['uint8_t', 'uint8_t', 'uint8_t', 'uint8_t', 'uint8_t', 'uint8_t']
             # unpack fields from payload
-            ordered_field_names += [f'{mavlink_map[msg_id].name}_{name}' for name in mavlink_map[msg_id].ordered_fieldnames]
-            for name in mavlink_map[msg_id].ordered_fieldnames:
-                type_idx = mavlink_map[msg_id].fieldnames.index(name)
-                ordered_field_types.append(mavlink_map[msg_id].fieldtypes[type_idx])
+            payload_types = []
+            for name, n_elements in zip(mavlink_map[msg_id].ordered_fieldnames, mavlink_map[msg_id].array_lengths):
+                field_name = f'{mavlink_map[msg_id].name}_{name}'
+                field_type = mavlink_map[msg_id].fieldtypes[mavlink_map[msg_id].fieldnames.index(name)]
+                # each element of an array is a field of its own
+                ordered_field_names += [f'{field_name}_{i}' for i in range(n_elements)] if n_elements else [field_name]
+                payload_types += ['uint8_t' if field_type == 'char' else field_type] * max(n_elements, 1)
+            ordered_field_types += payload_types
             if bitwise:
                 # calculate the mapping between each bit to the relevant header field
                 start_bit = byte_idx * 8
@@ -281,10 +287,9 @@ class BufferModel:
                     field_idx += 1
                     start_bit = last_bit
                 # calculate the mapping between each bit to the relevant payload field
-                format_string = mavlink_map[msg_id].unpacker.format
                 start_bit = (byte_idx + dialect_meta.header_len) * 8
-                for char in format_string[1:]:  # skip the first character which is the endianness
-                    field_len_bits = field_lengths.get(inv_format_strings.get(char)) * 8
+                for field_type in payload_types:
+                    field_len_bits = field_lengths[field_type] * 8
                     last_bit = start_bit + field_len_bits
                     bit_2_val_idx[start_bit:last_bit] = [field_idx] * (last_bit - start_bit)
                     field_idx += 1
-- 
2.43.0


From a72afaa62318e239238d3e34f17d33a937fa57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:57 +0000
Subject: [PATCH 27/54] fix: classify each buffer once

With several segmentation iterations the classifier counted a buffer once per
iteration, and the running index of ordered buffers got out of step.
---
 decoders/mavlink_decoder.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 465e09a..d8840ca 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
-- 
2.43.0


From 7356d7f7e8a075a91ca65c78d6ae56b3210f88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:39 +0000
Subject: [PATCH 28/54] fix: name fields by message type even if the message
 has a name field

A message with a field called 'name' hides the name of the message, so its fields were named after the field's value.
---
 inference/buffer_segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 45b3e73..e25c7f4 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -206,9 +206,9 @@ class BufferSegmentation:
             buffer_description.append(parsed_msg.get_header().pack())
             for idx, field in enumerate(parsed_msg.ordered_fieldnames):
                 type_idx = parsed_msg.orders.index(idx)
-                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
+                fields[f'{parsed_msg.get_type()}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
                 # format_attr returns is mavlink's field getter function
-                buffer_description.append((f'{parsed_msg.name}_{field}', parsed_msg.fieldtypes[type_idx]))
+                buffer_description.append((f'{parsed_msg.get_type()}_{field}', parsed_msg.fieldtypes[type_idx]))
             buffer_description.append("crc")
 
         return fields, buffer_description
-- 
2.43.0


From c558887ebcbff9c11b6708cbb127b07b6fc9c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:40 +0000
Subject: [PATCH 29/54] fix: a predefined model may be shorter than the model
 length

---
 decoders/entropy_bitwise_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index b61beb9..332fac7 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -42,6 +42,7 @@ class EntropyBitwiseDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
+            self.model_bits_idx = self.model_bits_idx[:self.model_length]
             self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
@@ -151,6 +152,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
+            self.model_bits_idx = self.model_bits_idx[:self.model_length]
             self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
-- 
2.43.0


From eec46084e145f7306c37279ed288de76fd931cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 30/54] fix: classifier analysis counts damaged fields, not
 damaged bits

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 4b45c3b..c6ca1af 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -210,9 +210,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 3243d0d..6cd29fa 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -240,9 +240,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index d8840ca..4ccf527 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -237,9 +237,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From ab3cc93c7178d8dd8f43720943ad029fcdf97cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:18 +0000
Subject: [PATCH 31/54] fix: encode recorded buffers which fill a codeword
 exactly

---
 runs/HC_eilat_July_2018/ecncoding_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/ecncoding_data.py b/runs/HC_eilat_July_2018/ecncoding_data.py
index b7d5e15..5f91c4f 100644
--- a/runs/HC_eilat_July_2018/ecncoding_data.py
+++ b/runs/HC_eilat_July_2018/ecncoding_data.py
@@ -13,7 +13,9 @@ def encode_data(encoder: EncoderWiFi) -> list[Bits]:
     for binary_data in buffers:
         if len(binary_data) <= encoder.k:
             pad_len = encoder.k - len(binary_data)
-            padded = binary_data + Bits(uint=random.getrandbits(pad_len), length=pad_len)
+            padded = binary_data
+            if pad_len > 0:  # a buffer which fits exactly needs no padding
+                padded += Bits(uint=random.getrandbits(pad_len), length=pad_len)
             encoded.append(encoder.encode(padded))
         else:  # need to split buffer to several codewords
             for i in range(len(binary_data)//encoder.k):
-- 
2.43.0


From b2fd84dd35c80f69231d1fc57a7c5996b4d150b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:03 +0000
Subject: [PATCH 32/54] fix: hand recorded data to the encoder in the form it
 takes

---
 runs/HC_eilat_July_2018/ecncoding_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runs/HC_eilat_July_2018/ecncoding_data.py b/runs/HC_eilat_July_2018/ecncoding_data.py
index 5f91c4f..f76b4da 100644
--- a/runs/HC_eilat_July_2018/ecncoding_data.py
+++ b/runs/HC_eilat_July_2018/ecncoding_data.py
@@ -2,6 +2,7 @@ import pickle
 from bitstring import Bits
 from ldpc.encoder import EncoderWiFi
 import random
+import numpy as np
 
 
 def encode_data(encoder: EncoderWiFi) -> list[Bits]:
@@ -16,16 +17,16 @@ def encode_data(encoder: EncoderWiFi) -> list[Bits]:
             padded = binary_data
             if pad_len > 0:  # a buffer which fits exactly needs no padding
                 padded += Bits(uint=random.getrandbits(pad_len), length=pad_len)
-            encoded.append(encoder.encode(padded))
+            encoded.append(Bits(encoder.encode(np.array(padded, dtype=np.int_))))
         else:  # need to split buffer to several codewords
             for i in range(len(binary_data)//encoder.k):
                 partial = binary_data[i*encoder.k: (i+1)*encoder.k]
-                encoded.append(encoder.encode(partial))
+                encoded.append(Bits(encoder.encode(np.array(partial, dtype=np.int_))))
 
             if (i+1)*encoder.k < len(binary_data):  # remaining tail to encode
                 pad_len = encoder.k - len(binary_data[(i+1)*encoder.k:])
                 padded = binary_data[(i+1)*encoder.k:] + Bits(uint=random.getrandbits(pad_len), length=pad_len)
-                encoded.append(encoder.encode(padded))
+                encoded.append(Bits(encoder.encode(np.array(padded, dtype=np.int_))))
     return encoded
 
 
-- 
2.43.0


From 698c78bad39d8731c958d1e4f053908c04ce5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 33/54] Revert "fix: count array elements in message payload
 length"

This reverts commit 8f9db33a81a5b7044b3bd873e2ef03857e51ea85.
---
 protocol_meta/protocol_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol_meta/protocol_meta.py b/protocol_meta/protocol_meta.py
index 18a5d7c..79208a6 100644
--- a/protocol_meta/protocol_meta.py
+++ b/protocol_meta/protocol_meta.py
@@ -55,7 +55,8 @@ class MavlinkDialectMeta:
         obj: type = dialect.mavlink_map.get(msg_id)  # type: ignore
         if not issubclass(obj, dialect.MAVLink_message):
             raise ValueError()
-        return obj.unpacker.size  # type: ignore  # wire size of payload, counting every element of array fields
+        field_types = obj.fieldtypes  # type: ignore
+        return sum(self.field_lengths[field] for field in field_types)
 
 
 mav_obj = dialect.MAVLink(1)
-- 
2.43.0


From 2b26b1b905eeca5a5f8407b3302a06e7ead2228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:45 +0000
Subject: [PATCH 34/54] fix: read the payload of array messages at its own size

The metadata counts one element per array, so the models could not read messages with array fields.
---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 79dd596..a0c964d 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -239,7 +239,7 @@ class BufferModel:
             field_values += struct.unpack(
                 payload_format,
                 buffer[byte_idx + dialect_meta.header_len:
-                       byte_idx + dialect_meta.header_len + dialect_meta.msgs_payload_length[msg_id]])
+                       byte_idx + dialect_meta.header_len + struct.calcsize(payload_format)])
         return field_values
 
     @staticmethod
-- 
2.43.0


From ce8a82a9f6412bece7092c39bd6a2ed0ca9d8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:53 +0000
Subject: [PATCH 35/54] fix: round the counts of a cluster given by its
 distribution

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index f136dfd..8e654e6 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -9,7 +9,7 @@ from scipy.stats import entropy
 
 class Cluster:
     def __init__(self, dist: NDArray[np.float_], uid: int, n_samples: int = 1) -> None:
-        self._data: NDArray[np.int_] = np.array(dist * n_samples, dtype=np.int_)
+        self._data: NDArray[np.int_] = np.array(np.rint(dist * n_samples), dtype=np.int_)
         self.uid: int = uid
         self.n_samples = n_samples
 
-- 
2.43.0


From 08436bd659a4f2bfec2f76909629dbf97afc6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:25 +0000
Subject: [PATCH 36/54] fix: refuse transition matrices of which any dimension
 is inconsistent

---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index fc00fbe..ef03c68 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -8,7 +8,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
         pass
     elif order != len(initial_state):
         raise ValueError("The order of the transition matrix must match the order of the initial state")
-    if num_states != transition_matrix.shape[-2]:
+    if any(dim != num_states for dim in transition_matrix.shape):
         raise ValueError("inconsistent dimensions of transition matrix")
 
     states = np.zeros(num_samples, dtype=np.int_)
-- 
2.43.0


From 6ecf839dd04de2dd3e8da8f46f65fe513f5eca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:25 +0000
Subject: [PATCH 37/54] fix: give every real label to one cluster only when
 relabelling

---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..c14fe6d 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -33,6 +33,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
         reduced_prediction_counts[:, predicted_label] = -1
+        reduced_prediction_counts[true_label, :] = -1  # each real label is given to one cluster only
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
     labels_map[remaining_predicted_label] = remaining_true_label
-- 
2.43.0


From 48386d9c7e335a48b13b835c5b1ebc8bce0e2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 38/54] fix: hand bits to the encoder as an array in the
 simulations

---
 .../classifying_entropy_decoder_over_awgn_channel.py | 10 +++++-----
 .../simulated_data_classifying_dude_decoder.py       | 12 ++++++------
 .../simulated_data_combined_decoder.py               | 10 +++++-----
 .../simulated_data_mavlink_decoding.py               | 10 +++++-----
 .../simulated_data_pretrained_model.py               |  2 +-
 scripts/train_estimator.py                           | 10 +++++-----
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index 6bddc43..ddc9773 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -87,17 +87,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index d893e7c..776054a 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -68,18 +68,18 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.append(encoder.encode(padded))
-        encoded.append(encoder.encode(binary_data[576:]))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
+        encoded.append(encoder.encode(np.array(binary_data[576:], dtype=np.int_)))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index 2670fd2..df53363 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -80,17 +80,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index e74d37b..8e97d6d 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -76,17 +76,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 385a043..27f1bc8 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -61,7 +61,7 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     pad_len = encoder.k - len(binary_data)
     padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-    encoded.append(encoder.encode(padded))
+    encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/scripts/train_estimator.py b/scripts/train_estimator.py
index 4fd542f..5b3ae79 100644
--- a/scripts/train_estimator.py
+++ b/scripts/train_estimator.py
@@ -34,17 +34,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 data = np.zeros((len(encoded), encoder.n), dtype=np.uint16)
 for i, encoded_bits in enumerate(encoded):
-- 
2.43.0


From 0c4dec9d6fe7324586f9027008121f0ddd8904b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 39/54] fix: record the number of transmissions asked for, not
 that of codewords

---
 runs/Feb_2022/simulation_rafael_code.py                         | 2 +-
 .../classifying_entropy_decoder_over_awgn_channel.py            | 2 +-
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py   | 2 +-
 runs/HC_eilat_July_2018/simulate_gallager_bf.py                 | 2 +-
 .../simulated_data_classifying_dude_decoder.py                  | 2 +-
 .../simulated_data_classifying_entropy_decoder.py               | 2 +-
 runs/HC_eilat_July_2018/simulated_data_combined_decoder.py      | 2 +-
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py      | 2 +-
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py      | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/runs/Feb_2022/simulation_rafael_code.py b/runs/Feb_2022/simulation_rafael_code.py
index 2c8d14d..8b17225 100644
--- a/runs/Feb_2022/simulation_rafael_code.py
+++ b/runs/Feb_2022/simulation_rafael_code.py
@@ -71,7 +71,7 @@ if window_len is not None:
 else:
     cmd += ' --window_len 0'
 if args.N > 0:
-    cmd += f' --N {n}'
+    cmd += f' --N {args.N}'
 if processes is not None:
     cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index ddc9773..fdc6b9a 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -249,7 +249,7 @@ if __name__ == '__main__':
           f'--conf_center {args.conf_center} --model_length {args.model_length} ' \
           f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index c7996a8..768d3ac 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -265,7 +265,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulate_gallager_bf.py b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
index 0efe8e3..ab84494 100644
--- a/runs/HC_eilat_July_2018/simulate_gallager_bf.py
+++ b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
@@ -192,7 +192,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
 
     os.mkdir(path)
     with open(os.path.join(path, "cmd.txt"), 'w') as f:
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index 776054a..655c582 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -214,7 +214,7 @@ if __name__ == '__main__':
           f'--cluster {args.cluster} --model_length {args.model_length} --context_length {args.context_length}'
 
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 56d0e98..545a518 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -270,7 +270,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index df53363..c450a96 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -289,7 +289,7 @@ if __name__ == '__main__':
           f'--conf_slope {args.conf_slope} --learn {args.learn} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
           f'--flip {args.flip}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 8e97d6d..36c80eb 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -254,7 +254,7 @@ if __name__ == '__main__':
           f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --conf_center {args.conf_center} ' \
           f'--conf_slope {args.conf_slope} --learn {args.learn}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 27f1bc8..86c1595 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -215,7 +215,7 @@ if __name__ == '__main__':
           f'--dec_type {args.dec_type} --conf_center {args.conf_center} --model_length {args.model_length} ' \
           f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
-- 
2.43.0


From de39b7e7070eeaf1dc62edb60050fb03411b540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 40/54] fix: record the entropy threshold under the option's
 name

---
 .../classifying_entropy_decoder_over_awgn_channel.py            | 2 +-
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index fdc6b9a..0cc6bd7 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -247,7 +247,7 @@ if __name__ == '__main__':
           f'--msg_delay {args.msg_delay} --dec_type {args.dec_type} --classifier_train {args.classifier_train} ' \
           f'--n_clusters {args.n_clusters} --cluster {args.cluster} --delta {args.delta} ' \
           f'--conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
         cmd += f' --N {args.N}'
     if window_len is not None:
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 86c1595..fedfa30 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -213,7 +213,7 @@ if __name__ == '__main__':
     cmd = f'python {__file__} --minflip {args.minflip} --maxflip {args.maxflip} --nflips {args.nflips}  ' \
           f'--ldpciterations {ldpc_iterations} --multiply_data {args.multiply_data} --msg_delay {args.msg_delay} ' \
           f'--dec_type {args.dec_type} --conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
         cmd += f' --N {args.N}'
     if window_len is not None:
-- 
2.43.0


From 9b0a0e70c76cac48564b5e4bd8aae36c0d486e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 41/54] fix: count errors in information and parity bits over
 the Gaussian channel

---
 .../classifying_entropy_decoder_over_awgn_channel.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index 0cc6bd7..d98e104 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -176,8 +176,8 @@ def simulation_step(snr: float) -> dict[str, Any]:
     if n-bp_success > 0:
         logger.info(f"NR recovery rate for snr= {snr}, is: {(entropy_success-bp_success)/(n-bp_success)}")
     # log data
-    info_errors = np.sum(errors < encoder.k, axis=1)
-    parity_errors = np.sum(errors >= encoder.k, axis=1)
+    info_errors = np.sum(errors[:, :encoder.k], axis=1)
+    parity_errors = np.sum(errors[:, encoder.k:], axis=1)
     zipped = [[np.array(en, dtype=np.int_), r, er, inf, pa] for en, r, er, inf, pa in
               zip(encoded, rx, errors, info_errors, parity_errors)]
     step_results["data"] = pd.DataFrame(zipped, columns=["encoded", "corrupted", "error_idx", "info_errors",
-- 
2.43.0


From cc28c8a56e2785160510239de5f0ab03d8b48a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 42/54] fix: define the data model when the mavlink simulation
 clusters and learns

---
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 36c80eb..fe3e39e 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -92,8 +92,8 @@ for _ in range(args.multiply_data):  # generate more buffers for statistical rep
     encoded.extend(encoded)
 n = len(encoded)
 # {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
+data_model = None
 if not bool(args.cluster):
-    data_model = None
     bs = BufferSegmentation(meta.protocol_parser)
     if args.n_clusters == 1:
         _, _, buffer_structure = bs.segment_buffer(binary_data.tobytes())
-- 
2.43.0


From 73ca33ee8aacbb06324084073a12a69e6cf22edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 43/54] fix: guard the recovery rate of the pretrained decoder
 by its own divisor

---
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index fedfa30..d697881 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -140,7 +140,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     logger.info(f"successful pre-trained decoding for bit flip p= {p}, is: {pre_trained_success}/{n}")
     if n-pure_success > 0:
         logger.info(f"NR recovery rate for bit flip p= {p}, is: {(entropy_success-pure_success)/(n-pure_success)}")
-    if n-pre_trained_success > 0:
+    if n-pure_success > 0:
         logger.info(f"pre-trained recovery rate for bit flip p= {p}, is: "
                     f"{(pre_trained_success-pure_success)/(n-pure_success)}")
     # log data
-- 
2.43.0


From 3a5d9199695e10497a098a27b8b125beefd0fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 44/54] fix: choose the columns of plain decoding by the
 decoder, not the channel

---
 .../simulated_data_classifying_entropy_decoder.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 545a518..f6c2f7e 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -207,7 +207,7 @@ def simulation_step(p: float) -> dict[str, Any]:
                                       columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                "vnode_validity", "dist", "structural_idx", "cluster_label", "hamming"])
     step_results["decoded_entropy"] = decoded_entropy_df
-    if args.channel_type == "bsc":
+    if args.dec_type in {"BP", "MS"}:
         decoded_ldpc_df = pd.DataFrame(decoded_ldpc,
                                        columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                 "vnode_validity", "hamming"])
-- 
2.43.0


From 16133f9c9fd5416784003c200cf74a64c9f695b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 45/54] fix: record the window length of the 2022 mavlink run
 once

---
 runs/Feb_2022/experimental_mavlink_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index fb25d7b..b092253 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -79,7 +79,7 @@ logger.info(f"seg_iter: {args.segiterations}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations}  --learn {args.learn} --segiterations {args.segiterations} ' \
       f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold} ' \
-      f'--invalid_threshold {args.invalid_threshold} --window_len {window_len} --conf_center {args.conf_center} ' \
+      f'--invalid_threshold {args.invalid_threshold} --conf_center {args.conf_center} ' \
       f'--conf_slope {args.conf_slope} --dec_type {args.dec_type} --experiment_date {args.experiment_date}'
 
 if window_len is not None:
-- 
2.43.0


From ab4ca26ed6a62b647cab38d271ffa09198c52cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 46/54] fix: record separate_models in the command of the 2023
 runs

---
 runs/Feb_2023/experimental_data_run_feb_23.py | 3 ++-
 runs/Feb_2023/experimental_mavlink_based.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/runs/Feb_2023/experimental_data_run_feb_23.py b/runs/Feb_2023/experimental_data_run_feb_23.py
index df588d2..3df93b2 100644
--- a/runs/Feb_2023/experimental_data_run_feb_23.py
+++ b/runs/Feb_2023/experimental_data_run_feb_23.py
@@ -101,7 +101,8 @@ logger.info(f"msg_type: {args.msg_type}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
       f'--conf_center {args.conf_center} --conf_slope {args.conf_slope} --dec_type {args.dec_type} --model_length ' \
-      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type}'
+      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type} ' \
+      f'--separate_models {args.separate_models}'
 if window_len is not None:
     cmd += f' --window_len {window_len}'
 else:
diff --git a/runs/Feb_2023/experimental_mavlink_based.py b/runs/Feb_2023/experimental_mavlink_based.py
index ae5ddc9..40621b1 100644
--- a/runs/Feb_2023/experimental_mavlink_based.py
+++ b/runs/Feb_2023/experimental_mavlink_based.py
@@ -110,7 +110,7 @@ cmd = f'python {__file__} --ldpciterations {ldpc_iterations}  --learn {args.lear
       f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold} ' \
       f'--invalid_threshold {args.invalid_threshold} --conf_center {args.conf_center} ' \
       f'--conf_slope {args.conf_slope} --dec_type {args.dec_type} --experiment_date {args.experiment_date} ' \
-      f'--msg_type {args.msg_type}'
+      f'--msg_type {args.msg_type} --separate_models {args.separate_models}'
 if window_len is not None:
     cmd += f' --window_len {window_len}'
 else:
-- 
2.43.0


From e6511e1f54cd77bcdf9c800fa78684b8d2573bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 47/54] fix: keep payloads which contain the log's success
 marker whole

---
 runs/Feb_2022/data/ship_log_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/Feb_2022/data/ship_log_reader.py b/runs/Feb_2022/data/ship_log_reader.py
index 17d8324..9114e99 100644
--- a/runs/Feb_2022/data/ship_log_reader.py
+++ b/runs/Feb_2022/data/ship_log_reader.py
@@ -8,7 +8,7 @@ def break_down(buffers: list[bytes]):
     for buffer in buffers:
         valid = buffer.find(b'time: ')
         if valid >= 0:
-            t = buffer.split(b'data success: ')
+            t = buffer.split(b'data success: ', 1)
             t = [t[1][:3], t[1][3:]]
             # [buffer.find(b'data success: ')+len('data success: ')+3:]
             d = {
-- 
2.43.0


From a65a0d3e6efdbb1f4541c33fb71e17802c34a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 48/54] fix: bit flipping comparison: iterations of a point
 don't depend on points run before it

---
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index 768d3ac..be78db2 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -73,7 +73,6 @@ logger = setup_logger(name=__file__, log_file=os.path.join("results/", 'log.log'
 
 
 def simulation_step(p: float) -> dict[str, Any]:
-    global ldpc_iterations
     global model_length
     global thr
     global args
@@ -93,7 +92,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     ms_decoder = DecoderWiFi(spec=spec, max_iter=20, decoder_type="MS")
     m, nn = h.shape
     k = nn - m
-    ldpc_iterations = max(int(3*p*nn), ldpc_iterations)
+    ldpc_iterations = max(int(3*p*nn), args.ldpciterations)
     wbf_decoder = WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.WBF,
                               info_idx=np.array([True] * k + [False] * m))
     wbf_entropy_decoder = ClassifyingEntropyDecoder(
-- 
2.43.0


From c76991ea784be21bbce5b2773998ae79dc940320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 49/54] fix: classifier analysis: give the encoder arrays, it
 does not take Bits

---
 scripts/classifier_analysis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 728a60b..6fef552 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -59,17 +59,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
-- 
2.43.0


From 8db343200808abd751f68c7e4388d489af2aa758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 50/54] fix: classifier analysis: layouts of three clusters are
 those of the bytes, not of the bits

---
 scripts/classifier_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 6fef552..33e6027 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -85,11 +85,11 @@ elif args.n_clusters == 2:
     _, _, buffer_structure = bs.segment_buffer(binary_data[576:].tobytes())
     buffer_structures.append(buffer_structure)
 elif args.n_clusters == 3:
-    _, _, buffer_structure = bs.segment_buffer(binary_data[:416])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[:416].tobytes())
     buffer_structures = [buffer_structure]
-    _, _, buffer_structure = bs.segment_buffer(binary_data[416:864])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[416:864].tobytes())
     buffer_structures.append(buffer_structure)
-    _, _, buffer_structure = bs.segment_buffer(binary_data[864:])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[864:].tobytes())
     buffer_structures.append(buffer_structure)
 else:
     raise ValueError("n_clusters must be 1, 2 or 3")
-- 
2.43.0


From b166260dcd42d18346a6dd5108c0c58420a6d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 51/54] fix: classifier analysis: save the cluster of each
 word, not that after the last one

---
 scripts/classifier_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 33e6027..fc69be7 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -322,7 +322,7 @@ def simulation_step(p: float) -> dict[str, Any]:
 
     classifier_df = pd.DataFrame({"good_fields": good_fields, "bad_fields": bad_fields,
                                   "good_bits": good_bits, "bad_bits": bad_bits,
-                                  "damaged_fields": damaged_fields, "cluster_label": running_idx})
+                                  "damaged_fields": damaged_fields, "cluster_label": np.arange(n) % args.n_clusters})
     step_results["classifier"] = classifier_df
     forcing_df = pd.DataFrame({"forced_fields": forced_fields, "forced_bits": forced_bits,
                                "correctly_forced_bits": correctly_forced_bits,
-- 
2.43.0


From f94b5dd23315a964fdf47c3e4a0332a8bce56561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 52/54] fix: classifier analysis: results of a run without a
 window can be saved

---
 scripts/classifier_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index fc69be7..55af438 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -233,7 +233,7 @@ def simulation_step(p: float) -> dict[str, Any]:
               for _ in range(n))
     )
     step_results: dict[str, Any] = {"p": p, "number_of_buffers": n, "no_errors": no_errors, "errors": errors,
-                                    "raw_ber": no_errors / encoder.n, "buffer_len": encoder.n, "window_len": window_len,
+                                    "raw_ber": no_errors / encoder.n, "buffer_len": encoder.n, "window_len": args.window_len,
                                     "n_clusters": args.n_clusters, "learn": args.learn, "model_length": model_length}
 
     running_idx = 0
-- 
2.43.0


From eddaa8ef43799014cec7f857e74ee6e7fdc2b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 53/54] fix: clustering analysis: without errors in training
 exactly the words classified afterwards are damaged

---
 runs/clsutering_analysis/clustering_analysis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index df3c421..9e0aac7 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -70,23 +70,22 @@ def analyze(run_idx: int):
                  class_idx * real_info_bits_per_buffer // n_classes:(class_idx + 1) * real_info_bits_per_buffer // n_classes],
                  rng.integers(low=0, high=2, size=pad_len))
             )  # pad with random bits
-            if no_errors > 0 and (train_with_errors or tx_idx >= n_training):
-                errors = rng.choice(k // n_classes, size=no_errors // n_classes, replace=False)
-                errors_bool = np.zeros(k, dtype=np.bool_)
-                errors_bool[errors] = True
-                buffers[tx_idx * n_classes + class_idx] = np.bitwise_xor(buffers[tx_idx * n_classes + class_idx], errors_bool)
             actual_classes[tx_idx * n_classes + class_idx] = class_idx
 
     if shuffle:
         X_train, X_test, y_train, y_test = train_test_split(
             buffers, actual_classes, train_size=n_training, shuffle=True, stratify=actual_classes
         )
-        buffers = np.vstack((X_train, X_test))
     else:
         X_train, X_test, y_train, y_test = train_test_split(
             buffers, actual_classes, train_size=n_training, shuffle=False
         )
-        buffers = np.vstack((X_train, X_test))
+    if no_errors > 0:
+        for words in (X_train, X_test) if train_with_errors else (X_test,):
+            for word in words:
+                errors = rng.choice(k // n_classes, size=no_errors // n_classes, replace=False)
+                word[errors] = ~word[errors]
+    buffers = np.vstack((X_train, X_test))
     clustering_labels = analyze_mine(buffers, n_buffers)
     clustering_labels, l_map = relabel(clustering_labels, n_classes, y_test)
     clustering_stats = stats(y_test, clustering_labels)
-- 
2.43.0


From 0291d36b41862252e6c7d8c27b7dfff3f4e7e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 54/54] fix: clustering analysis: the recorded command can be
 read back

---
 runs/clsutering_analysis/clustering_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index 9e0aac7..a2a374f 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -112,7 +112,7 @@ if __name__ == "__main__":
         logger.info(f"Starting {n_classes} classes, {p} p, {n_training} training, train with errors {train_with_errors}, "
                     f"shuffle {shuffle}, {number_of_runs} runs")
         cmd = f"python {__file__} --n_classes {n_classes} --p {p} --n_training {n_training} --train_with_errors " \
-              f"{train_with_errors} --shuffle {shuffle} --n_runs {number_of_runs}"
+              f"{args.train_with_errors} --shuffle {args.shuffle} --n_runs {number_of_runs}"
         with open(os.path.join(path, "cmd.txt"), "w") as f:
             f.write(cmd)
         logger.info(cmd)
-- 
2.43.0

