import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})

p("C01","Segmentation finds exactly the MAVLink messages in a buffer",
"Scanning any byte buffer from left to right, segmentation reports precisely the frames of the dialect whose marker, length, id and checksum are right and which lie completely in the buffer, at their byte positions and in buffer order, never inside a frame already accepted. Every byte is labelled header, payload, checksum or unknown accordingly, and exactly the bits of accepted frames are marked valid. The buffer is left unmodified. (Messages with array fields are excepted: the metadata is known to count one element per array, see the known findings.)",
["inputs"],"every byte string: any mix of intact, damaged, truncated, relabelled, nested and adjacent frames of every message of the dialect with noise between them",
"The tests segment a handful of fixed buffers; the rule has to hold for every placement, damage and nesting of frames of all message types.",
["inference/buffer_segmentation.py","protocol_meta/msg_header.py","protocol_meta/protocol_meta.py","mavlink_utils/HC_dialect.py"],
[("header test, then protocol parse with checksum, skipping bytes already labelled","inference/buffer_segmentation.py: BufferSegmentation.segment_buffer"),("payload length per message id","protocol_meta/protocol_meta.py: MavlinkDialectMeta")],
["labels, bit validity and structure returned by segmentation"])
p("C02","Damaged part reports cover exactly the bytes that belong to no message",
"For any buffer and labelling of its bytes, the reported bad parts are the maximal runs of unknown bytes, in order, each with its start index, its end and exactly its bytes. A buffer without unknown bytes yields an empty report, and every byte of the buffer is either in one reported part or labelled as part of a message.",
["inputs"],"every buffer and every sequence of byte labels, runs at the very start and end included",
"Tests cover one or two damaged buffers; run boundaries, adjacent runs and the end of the buffer need all label sequences.",
["inference/buffer_segmentation.py"],[("run length scans","inference/buffer_segmentation.py: bad_buffer_parts, bad_buffer_idx")],["dict of bad parts, list of index pairs"])
p("C03","Fields are read with the value, type, name and place the protocol gives them",
"For every message found in a buffer, the fields reported have the values which the payload encodes, their protocol types, names made of message type and field name, in over the air order, text included (messages with array fields are not found, a known finding). For a given layout of messages, those with array fields included, reading a buffer (from bytes or from bits, damaged or not) yields the value of every header field and payload field element in buffer order, and the map from bits to fields assigns every bit of a header or payload to its field and no bit outside.",
["inputs","configurations"],"every layout of messages with gaps and padding, every payload, every pattern of bit errors, byte and bit form",
"No test reads fields at all; the guarantee spans about a hundred message types with different field orders, widths and arrays.",
["inference/buffer_segmentation.py","inference/statistical_models.py","protocol_meta/protocol_meta.py"],
[("get_msg_fields","inference/buffer_segmentation.py"),("unpack_values, unpack_structure","inference/statistical_models.py: BufferModel")],["returned fields and description; returned values, names, types and bit map"])
p("C04","Messages survive packing and parsing; metadata agrees with the dialect XML",
"For every message of both dialects and all field values in range, packing yields the MAVLink 1 frame which the XML definition calls for (field order, little endian encoding, length, sequence, addresses, checksum with the message's own seed), and parsing it returns the same values and addresses. Sending messages one after another, directly or through the encode and send helpers of each message, writes their frames in order, numbered on modulo 256. A stream of frames fed in any chunks comes out complete, in order and once; a robust parser fed with anything loses no byte and reports what is no frame as bad data; and a damaged or shortened frame is refused unless its checksum happens to be right. The protocol metadata (known ids, payload lengths, ordered field names and types, type sizes and formats, enumerations) equals what the XML definition says, except that payload lengths count one element per array, a known finding.",
["inputs","histories"],"every message id, all field values, sequence numbers and addresses, every chunking of a stream, bit errors and truncation",
"The tests build a few header objects; packing, parsing and metadata of all messages are used by everything else and never tested.",
["mavlink_utils/HC_dialect.py","mavlink_utils/minimal_dialect.py","mavlink_utils/HC_dialect.xml","mavlink_utils/minimal_dialect.xml","protocol_meta/protocol_meta.py"],
[("pack, decode, parse_buffer","mavlink_utils/HC_dialect.py"),("MavlinkDialectMeta","protocol_meta/protocol_meta.py")],["frame bytes, parsed messages, metadata dictionaries"])
p("C05","Frame headers are built, parsed and validated by the protocol's rules",
"A header built from a known message id and sequence, system and component numbers of 0 to 255 is the six bytes marker, payload length of that id, sequence, system, component, id, each of which can be read back; any number outside of a byte and any unknown id is refused with the error for it. Parsing six bytes keeps sequence and addresses and takes the id from the buffer or the caller's override, other lengths are refused. A buffer counts as a valid header exactly when it has six bytes, starts with the marker and its length is the payload length of its known id (the one of the metadata, which for messages with array fields is a known finding).",
["inputs"],"all numbers in and out of range, all byte strings of any length, all 65536 length/id pairs",
"Tests use a few random ids; the boundary values and the 65536 length/id pairs are not enumerated.",
["protocol_meta/msg_header.py","protocol_meta/protocol_meta.py"],[("FrameHeader, FrameHeader.from_buffer, is_valid_header","protocol_meta/msg_header.py")],["header bytes, properties, errors"])
p("C06","Hamming distances are exact and the nearest valid header is nearest",
"The Hamming distance of two equally long values, whether given as integers, bytes, bit strings or bit arrays in any combination that is supported, is the number of differing bits; it is symmetric, zero only for equal values and obeys the triangle inequality. For any six bytes, the distance to a valid header is the minimum over all known ids (those with payloads up to the given limit, if one is given) of differing bits in marker, length and id, together with an id which attains it (payload lengths as in the metadata). Six bytes exactly are required, and values of unsupported types are refused.",
["inputs"],"all pairs of values and forms, all six byte strings, all length limits",
"Tests check a few fixed pairs; minimality is a statement over all ids and length limits for every input.",
["utils/bit_operations.py","protocol_meta/msg_header.py"],[("hamming_distance","utils/bit_operations.py"),("hamming_distance_2_valid_header","protocol_meta/msg_header.py")],["returned distance and id"])
p("C07","Field models describe exactly the window of samples they were given",
"After any history of samples, single or in lists, a field model holds the last ones up to its window, its mean and standard deviation are those of the finite samples among them, and the probability of a value is the two-sided Gaussian tail probability beyond it (1 or 0 for equal or different when there is no spread). Density and cumulative probability follow the same Gaussian. The bits of the mean are the protocol encoding of the mean, rounded and saturated to the range of the field's type; unknown types are refused.",
["histories","inputs"],"every sequence of samples of every field type (extremes, NaN and infinities included), window sizes and questions in between",
"No tests exist for field models; windowing, caching of moments and encoding have to be right after every history.",
["inference/statistical_models.py"],[("FieldModel.add_sample, mean, std, classify_value, cdf, pdf, bitwise_mean","inference/statistical_models.py"),("num2bits","inference/statistical_models.py")],["model size, mean, std, probabilities, bits"])
p("C08","Buffer models keep one model per field and answer for every bit of a buffer",
"After any history of buffers of one or several layouts, given as bytes or bits, a buffer model has exactly one field model per field seen, each holding that field's values in order up to the window, and its size is the number of buffers up to the window. Asked about a buffer, it gives for every field and each of its bits the field's probability and spread, and not-a-number for fields never learned and bits outside of any field, without modifying or learning anything; asked for mean bits it gives the bits of the fields' means at the requested positions (zero outside of known fields). Damaged fields are reported as the field which each erroneous bit lies in, and no others.",
["histories","configurations"],"every history of buffers with and without bit errors, layouts (gaps, arrays, repeated message types), windows and questions",
"No tests exist; the mapping between fields and bits must hold for all layouts after every history.",
["inference/statistical_models.py"],[("BufferModel.add_buffer, predict, bitwise_model_mean, find_damaged_fields","inference/statistical_models.py")],["per field and per bit answers"])
p("C09","A saved buffer model is the same model after loading",
"A buffer model written to a file and read back has the same fields, types, samples, moments, sizes and window, and gives the same answers about every buffer. It also learns on like the original: the same further buffers lead to the same model. Saving changes nothing in the saved model, and saving it again after loading changes nothing either. Model files of earlier versions, like those which come with the repository, load with the fields, types, samples, moments and windows they contain.",
["histories"],"every history before saving, every history after loading, every window",
"There is no test of saving; equality of behaviour has to hold for all models and all continuations.",
["inference/statistical_models.py"],[("BufferModel.save, BufferModel.load","inference/statistical_models.py")],["behaviour of original and loaded model"])
p("C10","Probabilities, entropy, Hellinger distance and typical sets match definitions",
"For discrete data of any supported type, in one or two dimensions, the estimated probabilities are the relative frequencies of the symbols (per row in two dimensions, over the common alphabet when one is asked for), non-negative and summing to one. Entropy is the base 2 entropy of a distribution, between zero and the logarithm of the alphabet size; Hellinger distance follows its formula, is symmetric, zero for equal distributions and within zero and one; typical set bounds are the textbook powers of two for the entropy given or computed. Floating point data, unsupported dimensions and inconsistent arguments are refused.",
["inputs"],"all data arrays, distributions, including degenerate ones, and parameters",
"Tests compare a few fixed distributions; definitions and bounds hold for every distribution, also at the edges (zero probabilities, one symbol, rounding).",
["utils/information_theory.py"],[("prob, prob_with_alphabet, entropy, hellinger, typical_set_cardinality","utils/information_theory.py")],["returned numbers"])
p("C11","The classifier clusters its training buffers and labels later ones by closeness",
"Until the configured amount of data is there every buffer gets label -1; then the training buffers, starting as one cluster each, are merged two closest at a time, by the chosen distribution distance and size weighting, down to the configured number of clusters. From then on every buffer gets the label of the cluster closest to it (by likelihood or by Hamming distance to the majority bits) and is added to that cluster and no other. Cluster sizes, bit distributions and majority bits always are those of the buffers in the cluster.",
["histories","configurations"],"every history of buffers, number of clusters, training size, distances and weights; ties may be resolved either way",
"No tests exist for clustering; the result depends on the whole history.",
["inference/clustering.py"],[("BufferClassifier.classify and merging","inference/clustering.py"),("Cluster","inference/clustering.py")],["labels, cluster distributions, sizes, majority bits"])
p("C12","The Bernoulli mixture matches its responsibilities and never loses likelihood",
"After fitting any binary data set, component weights are a distribution, means lie in zero to one, responsibilities sum to one per sample, and weights and means are the averages which the responsibilities call for. Every iteration is one step of expectation maximisation from the one before and does not lower the likelihood (a step which would empty a component is undone and ends the fit); sample scores are the mixture's log likelihood, the score is their mean, and every sample is predicted to be in a component of highest posterior. A single component is the mean of the data; the data are not modified.",
["inputs"],"every binary data set, number of components, number of iterations and random start",
"No tests exist; expectation maximisation invariants quantify over data sets and starting points.",
["inference/bmm.py"],[("BMM.fit, predict, score_samples, score","inference/bmm.py")],["parameters, responsibilities, scores, predictions"])
p("C13","DUDE estimates follow the denoising rule for the context counts of the sequence",
"The batch denoiser estimates every observation with a full two-sided context by the DUDE rule (least expected loss under the counts of that context inverted through the channel, or that posterior itself in soft mode) and leaves the edges as observed. The online denoiser does the same with one-sided contexts and the counts up to and including the present observation, sample by sample or in bulk alike, continuing across calls and starting afresh after a reset or from a given initial context. Costs are the corresponding expected losses; observations outside of the alphabet and contexts of wrong length are refused; inputs are not modified.",
["inputs","histories"],"every sequence, alphabet size, context length of at least one, invertible channel and loss matrix, every split between single samples and bulk",
"No tests exist; the estimate of each symbol depends on the whole sequence.",
["inference/dude.py"],[("DUDE.denoise_sequence, OnlineDude.denoise_sample, denoise_sequence, reset, initial_context","inference/dude.py")],["estimates and costs"])
p("C14","The entropy aided denoiser changes low entropy bits only, by its model",
"For any history of buffers, hard or soft, each bit's log likelihood ratio is the received one plus, for bits whose estimated entropy in the window of earlier buffers is below the threshold, the channel corrected model's log likelihood ratio weighted by the confidence for that many buffers; no other bit changes. The model is that of the hard bits of the earlier buffers in the window, one buffer at a time or in bulk alike, and is empty after a reset. The reported cost is the number of bits whose hard decision changed.",
["histories","configurations"],"every history, window, threshold, confidence curve, flip probability, input and output form",
"No tests exist; the model is a function of the whole history.",
["inference/entropy_mle.py"],[("EMLE.denoise_buffer, denoise_sequence, reset","inference/entropy_mle.py")],["estimates and costs"])
p("C15","Entropy decoders rectify failed words with the bit model, and nothing else",
"A received word is decoded as it is first; only when that fails and enough buffers are known, it is decoded again with exactly the model bits of low entropy changed: by the clipped model log likelihood ratio, by the model's bit value (hard decisions), or by the confidence weighted sum of the models of good and of all buffers under the chosen scheme, clipped. The model consists of the information bits of earlier words which turned out to be complete messages (and, for the weighted decoder, a second one of all words, decoded or as received), limited to the window; a predefined model is used as given and never learned. The answer is the channel decoder's last one together with the number of messages in it, and the word passed in is not modified.",
["histories","configurations","fault_sequences"],"every history of received words and of channel decoder successes, failures and miscorrections; thresholds, windows, clipping, confidence schemes, model lengths, predefined models; Bayes estimator until its counts are first rescaled",
"No test runs a decoder; what a word is turned into depends on the whole history of successes and failures before it.",
["decoders/entropy_bitwise_decoder.py"],[("EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder","decoders/entropy_bitwise_decoder.py")],["words given to the channel decoder, results"])
p("C16","The classifying decoder rectifies each word with the bit model of its own class",
"Every word is assigned a class by the buffer classifier (or the classes take turns when clustering is off), and, once its class has data, is decoded with the low entropy bits of exactly that class's model added with confidence weight and clipping (or passed as reliabilities or forced bits to a bit flipping decoder) and all other bits as received. The class's model, and no other, then learns the decoded information bits if decoding succeeded and the received ones if not, within the window; a given model is never changed. Words without a class are decoded as received, and the answer is the channel decoder's with the class label.",
["histories","configurations","fault_sequences"],"every history of words of one or several kinds, decoder outcomes, class counts, windows, thresholds, clipping, given models, belief propagation, weighted and Gallager bit flipping",
"No test runs this decoder; separation of classes is a property of histories.",
["decoders/classifiying_decoder.py","inference/clustering.py"],[("ClassifyingEntropyDecoder.decode_buffer, update_model, model_prediction","decoders/classifiying_decoder.py")],["words and reliabilities given to the channel decoder, results, labels"])
p("C17","The MAVLink decoder scales, forces and doubles exactly the right bits",
"Once the layout of a word's class is known, its bits are changed as follows and in no other way before decoding: bits of fields whose value is very plausible are multiplied by the valid factor, bits of implausible ones by the invalid factor (both weighted by confidence while learning), bits of impossible values of fields without spread are forced to that value, and bits of complete messages found by segmentation count double. Words of classes without layout are decoded as received. Unless it was given, the field model learns every word of a class, as decoded on success and as received on failure, read by the class's layout, which is taken from its first successfully decoded word; the reported classifier figures count damaged fields correctly.",
["histories","configurations","fault_sequences"],"every history of words of one or two layouts, decoder outcomes, one to three classes, thresholds, factors, windows, confidence curves, given models and layouts",
"The decoder's test file has no effective tests; its effect on a word depends on the whole history.",
["decoders/mavlink_decoder.py","inference/statistical_models.py","inference/buffer_segmentation.py"],[("MavlinkRectifyingDecoder.decode_buffer, rectify_llr, segmentation","decoders/mavlink_decoder.py")],["words given to the channel decoder, results, labels, debug figures"])
p("C18","Combined decoders apply field model and bit model, each to its own bits, once",
"A word of a class with known layout is changed by the field model of that layout (plausible and implausible fields scaled, fields without spread forced, complete messages counted double) and then by the class's bit model (low entropy bits receive the clipped, confidence weighted log likelihood ratio), each exactly once and only on the bits it covers. The unified decoder scales only bits on which field and bit model agree, once its bit model is trusted. Both models of the word's class learn the outcome, other classes are untouched, words without class are decoded as received, and the answer is the channel decoder's with the class label.",
["histories","configurations","fault_sequences"],"as for the MAVLink decoder, and thresholds, clipping, flip probability and sign flipping of the bit model; model lengths shorter than, equal to and longer than the information bits",
"No test runs these decoders; the interplay of two models shows in histories only.",
["decoders/combined_decoder.py","decoders/combined_unified_decoder.py"],[("CombinedDecoder, CombinedUnifiedDecoder","decoders/combined_decoder.py, decoders/combined_unified_decoder.py")],["words given to the channel decoder, results, labels"])
p("C19","The DUDE decoder adds per bit denoising of its class's history to the word",
"Every bit of the model's length is denoised over time by an online denoiser of its own, per class of words, fed with the hard decisions of exactly the words of that class in order; the clipped, confidence weighted log ratio of its posterior is added to the received value and no other bit changes. Words without class are decoded as received, and confidence counts the words of the class. The answer is the channel decoder's with the class label, and the word passed in is not modified.",
["histories","configurations","fault_sequences"],"every history of words of one or several kinds, decoder outcomes, classes, context lengths of at least one, clipping, confidence curves, flip probabilities",
"No test runs this decoder; per bit, per class state over histories cannot be sampled by hand.",
["decoders/classifying_DUDE_decoder.py","inference/dude.py"],[("ClassifyingDudeDecoder.decode_buffer","decoders/classifying_DUDE_decoder.py")],["words given to the channel decoder, results, labels"])
p("C20","On real codes decoders are honest, repeatable, isolated and recover content",
"With real LDPC codes and any history of noisy words, every decoder reports success only for codewords (and for belief propagation always when the estimate is one), its soft and hard outputs agree, it says what type of decoder it is, it neither modifies its arguments nor results handed out earlier, and the same history gives the same answers whatever other decoder instances do. A link which repeats the same undamaged content keeps being decoded correctly. After enough undamaged words of the same content, a word whose known bits are damaged is recovered.",
["histories","configurations","fault_sequences"],"all twelve decoders, random small systematic codes, belief propagation, min-sum and bit flipping, noise levels, histories",
"No test decodes anything; these contracts are about histories, aliasing and shared state.",
["decoders/decoder.py","decoders/entropy_bitwise_decoder.py","decoders/classifiying_decoder.py","decoders/classifying_DUDE_decoder.py","decoders/mavlink_decoder.py","decoders/combined_decoder.py","decoders/combined_unified_decoder.py","decoders/turbo.py"],[("decode_buffer of every decoder","decoders/")],["decoding results, argument arrays"])
p("C21","Markov sources follow their transition matrix",
"A generated sequence starts with the initial state(s), has the requested length, and every further symbol is drawn with the probability which the transition matrix gives it after the preceding symbols, oldest first, for any order. Impossible transitions never occur and certain ones always do. Initial states and matrices of inconsistent dimensions are refused.",
["inputs","configurations"],"every order, number of states, transition matrix, initial state and length",
"No tests exist; the statement is about all contexts of all matrices.",
["utils/random_sources.py"],[("generate_markov_samples","utils/random_sources.py")],["generated sequence"])
p("C22","Performance figures follow their definitions",
"For any true and predicted labels, or any confusion matrix, the confusion matrix has true classes in rows and predicted ones in columns, and recall, precision, F1 score and accuracy follow from it by definition (precision of a class which is never predicted is 1 if it never occurs and 0 otherwise). The bit error rate of two bit arrays of any type is the fraction of differing bits and is symmetric. Inputs are not modified.",
["inputs"],"all labelings, confusion matrices with empty rows and columns, bit arrays of signed, unsigned and boolean type",
"No tests exist; the corner cases are classes which never occur or are never predicted, and unsigned types.",
["utils/performance_analysis.py"],[("stats, ber","utils/performance_analysis.py")],["returned figures"])
p("C23","The turbo decoder exchanges extrinsic information until one decoder succeeds",
"In each iteration the first decoder gets the received values plus the second one's latest extrinsic values (zero at first), and, if it fails, the second one gets the received values plus the first one's extrinsic values, extrinsic meaning output minus received values minus own prior. The first success ends decoding and is returned with the number of the decoder it came from; after the last iteration the second decoder's answer is returned, with the number of wrong bits in debug mode. State does not carry over between words and the word passed in is not modified.",
["histories","configurations","fault_sequences"],"every sequence of successes and failures of both decoders, numbers of iterations, received words and decoder outputs",
"No test runs the turbo decoder; the algebra has to hold over all iterations and outcomes.",
["decoders/turbo.py"],[("TurboDecoder.decode_buffer, track_errors","decoders/turbo.py")],["inputs of both decoders, result"])
p("C24","Buffer structures compare by layout and accept and keep exactly fitting buffers",
"Two buffer structures, or a structure and a layout, are equal exactly when they place the same message ids at the same positions, whatever buffers were received; a structure's length and text are those of its layout. A buffer is accepted exactly when at every position of the layout a complete header with that id is present; accepted buffers are kept and counted in order, and refusing one changes nothing; the models it is given are the ones it holds. Random test data stay in range: bytes take all values from 0 to 255, message ids are all those of the dialect, bit strings have the length asked for.",
["histories","inputs"],"every layout, every history of intact, damaged, shortened and shifted buffers",
"Tests register two or three random buffers; refusals, truncation at header borders and histories are not sampled.",
["inference/buffer_segmentation.py","data_generation/random_test_data_generation.py"],[("BufferStructure","inference/buffer_segmentation.py"),("rand_uint8, rand_msg, rand_bitstring","data_generation/random_test_data_generation.py")],["equality, acceptance, counts, kept buffers"])
p("C25","Recorded telemetry is encoded completely, in order and without loss",
"Encoding the recorded transmissions yields, buffer by buffer and in order, one codeword per part of at most the encoder's information length: each carries the next bits of the buffer at its start, only the last part of a buffer is padded (to exactly the information length, and not at all when it fits), and no bit is lost, repeated or mixed with another buffer. Only the recording with the expected delay is used.",
["inputs","configurations"],"every set of recorded buffers, shorter than, equal to, multiples of and longer than the information length; every information length; real codes",
"No test encodes recordings; the borders between parts depend on all combinations of buffer and code length.",
["runs/HC_eilat_July_2018/ecncoding_data.py"],[("encode_data","runs/HC_eilat_July_2018/ecncoding_data.py")],["list of codewords"])
p("C26","Relabelling clusters keeps the clustering and restores a right one's names",
"For any true and predicted labels of a number of classes (true labels given, or taking turns), relabelling gives all members of a predicted cluster one and the same class, as the returned map says, all of them classes in range. The largest agreement between a cluster and a class is kept, and a clustering which is right but for the names of its clusters becomes the true labels. The arguments are not modified.",
["inputs"],"every labelling, number of classes, renaming of clusters and mistakes on top, integer types",
"No test calls it; the statement quantifies over all permutations and mistakes.",
["runs/clsutering_analysis/functions.py"],[("relabel","runs/clsutering_analysis/functions.py")],["new labels and map"])
p("C27","Simulation runs send, damage, decode and report what they were asked to",
"A run of a simulation of the 2018 recording (runs/HC_eilat_July_2018: classifying entropy decoder over the bit flip and Gaussian channels with belief propagation, min-sum and weighted bit flipping, the same over Gaussian noise in its own script, pretrained model, DUDE, MAVLink, combined decoders and Gallager bit flipping), for any of its arguments: sends the first N recorded buffers in order, split over the clusters and repeated as asked, as codewords which carry their bits; the same words at every point. At a flip probability p each word of n bits is damaged in exactly int(n p) different bits, those reported; over Gaussian noise at the rate of the signal to noise ratio. Each word is decoded, in order, as by decoders with the settings of the arguments (iterations, thresholds, windows, clusters, ...). Saved distances, numbers of errors in information and parity bits, raw and decoded bit error rates and success rates follow from the saved words, at every point, in the summary and in its MATLAB copy. The recorded command repeats the run.",
["inputs","histories"],"every script, combination of arguments, part of the recording and noise",
"No test runs a simulation; figures in the results have to agree with the words for every argument, and most defects show only for certain combinations of switches.",
["runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py","runs/HC_eilat_July_2018/simulated_data_combined_decoder.py","runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py","runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py","runs/HC_eilat_July_2018/simulated_data_pretrained_model.py","runs/HC_eilat_July_2018/simulate_gallager_bf.py","runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py"],
[("simulation_step","runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py"),("simulation_step","runs/HC_eilat_July_2018/simulated_data_combined_decoder.py"),("simulation_step","runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py")],["saved results, summaries and command of a run"])
p("C28","Runs on the sea trials decode every recorded word and report it faithfully",
"A run on recorded transmissions (runs/Feb_2022 and runs/Feb_2023: entropy, MAVLink and unified decoder on telemetry; and the simulation of the 2022 code), for any recording of at least two words of which the first is identified, and any arguments: decodes every recorded word, of one date or of both in order, as by decoders with the settings of the arguments. Numbers of errors, raw error rates, distances and bit error rates are those of the identified words, and -1 (left out of the rates) for words whose transmission was not identified; success is that of the parity checks, and success rates and the textual summary count it over all words. The recorded command repeats the run.",
["inputs","histories"],"every script, recording, order of identified and unidentified words, and combination of arguments",
"The recordings are not in the repository and no test runs these scripts; results have to agree with the words for every recording.",
["runs/Feb_2022/experimental_data_run.py","runs/Feb_2022/experimental_mavlink_based.py","runs/Feb_2022/experimental_data_unified_decoder.py","runs/Feb_2022/simulation_rafael_code.py","runs/Feb_2023/experimental_data_run_feb_23.py","runs/Feb_2023/experimental_mavlink_based.py","runs/Feb_2023/experimental_data_unified_decoder.py"],
[("simulation_step","runs/Feb_2022/simulation_rafael_code.py")],["saved results, summary and command of a run"])
p("C29","Data preparation keeps what recordings, logs and result files contain",
"(1) runs/HC_eilat_July_2018/data/msg_creator.py makes of a sensor recording, for each delay, at every instant from the first position up to (not including) that of the mission's end, one buffer with the position, pinger, attitude, sound velocity and chamber messages of the first sample at or after the instant, with consecutive sequence numbers, in the recording and in the table of bytes. (2) scripts/train_estimator.py gives for every bit of a codeword the relative frequencies of 0 and 1 in the encoded recording. (3) train_buffer_model.py of both trials gives the field model of exactly those recorded words which are identified and start with the frame marker. (4) ship_log_reader.py reads the acquisitions of all logs, in the order of their folders' dates, each with time, size, success and the first 123 bytes of its payload whatever bytes it has. (5) scripts/unify_results.py puts the steps of a broken run in the order of their age and the summary follows from them.",
["inputs"],"every recording, set of logs and steps which the scripts can be given",
"No test runs the scripts; the samples which are chosen, left out or cut depend on all the data.",
["runs/HC_eilat_July_2018/data/msg_creator.py","scripts/train_estimator.py","runs/Feb_2022/train_buffer_model.py","runs/Feb_2023/train_buffer_model.py","runs/Feb_2022/data/ship_log_reader.py","scripts/unify_results.py"],
[("break_down","runs/Feb_2022/data/ship_log_reader.py")],["files written, acquisitions read"])
p("C30","The comparison of bit flipping decoders decodes and reports what it was asked to",
"A run of runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py, for any of its arguments, sends the first N recorded buffers in order, repeated as asked, as codewords which carry their bits, the same at every point, with Gaussian noise of the strength of the point's signal to noise ratio (in decibels). Every word is decoded, in order, as by the min-sum decoder and the weighted, modified and loop-free bit flipping decoders, each alone and with a model of the source, with the settings of the arguments; the number of iterations allowed at a point is the one asked for, or three times the expected number of errors if that is more, whichever other points are run before it in the same process. Saved distances, numbers of errors, raw and decoded bit error rates and success rates follow from the saved words at every point, in the summary and in its MATLAB copy. The recorded command repeats the run.",
["inputs","histories"],"every combination of arguments, part of the recording, noise and number of processes",
"No test runs it; a run has seven decoders with figures of their own, and what one point leaves behind shows only at later points.",
["runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py"],[("simulation_step","runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py")],["saved results, summaries and command of a run"])
p("C31","Analyses of field classification and clustering report what happened to words",
"(1) scripts/classifier_analysis.py with a given model, for any of its arguments, model and recording: the words are codewords which carry the recorded buffers, split over the clusters; each is damaged in exactly int(n p) bits, those reported. For every word the saved damaged, good (probability above 1 - threshold), bad (below threshold) and forced (impossible under a constant model) fields and bits are those of the layout of its cluster and of the model's prediction, and hits, false alarms, right and wrong rejections, positives and negatives of each kind, as well as the effect of forcing, are counted from them; saved clusters are those of the words; the summary adds up the words. (2) runs/clsutering_analysis/clustering_analysis.py: each run classifies every part of every telemetry word once, trains classifier and mixture model on the same n_training words and asks both about the others; without errors in training exactly the words asked about are damaged; confusion matrices, accuracy, recall and precision are those of the labels given. In both the recorded command has the settings of the run.",
["inputs"],"every combination of arguments, recording, model and noise",
"No test runs the scripts; counts have to agree with words, layouts and predictions for every threshold, model and number of clusters.",
["scripts/classifier_analysis.py","runs/clsutering_analysis/clustering_analysis.py"],
[("classifier_characterization","scripts/classifier_analysis.py"),("forcing_characterization","scripts/classifier_analysis.py"),("analyze","runs/clsutering_analysis/clustering_analysis.py")],["saved results, summaries and command of a run"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
TECH={
"C01":"differential testing against an independent MAVLink reference on generated buffers",
"C02":"property-based testing against a run-length oracle",
"C03":"differential testing against a reference reader built from the XML",
"C04":"round-trip and differential testing against the XML, metadata enumerated",
"C05":"property-based testing with complete enumeration of length/id pairs",
"C06":"property-based testing against brute force minimum, metric laws",
"C07":"stateful model-based testing against a reference window model",
"C08":"stateful model-based testing against a reference buffer model",
"C09":"stateful round-trip testing",
"C10":"property-based testing against definitions",
"C11":"stateful model-based testing against the set of all reachable clusterings",
"C12":"property-based testing of EM invariants over data sets and seeds",
"C13":"model-based testing against a reference implementation of the DUDE rule",
"C14":"stateful model-based testing against a reference bit model",
"C15":"stateful model-based testing with a scripted (fault injecting) channel decoder",
"C16":"stateful model-based testing with a scripted (fault injecting) channel decoder",
"C17":"stateful model-based testing with a scripted (fault injecting) channel decoder",
"C18":"stateful model-based testing with a scripted (fault injecting) channel decoder",
"C19":"stateful model-based testing with a scripted (fault injecting) channel decoder",
"C20":"property-based testing of histories on real codes: invariants, repeatability, isolation, recovery",
"C21":"property-based testing: exact for deterministic chains, support and frequency tests",
"C22":"property-based testing against definitions",
"C23":"model-based testing with scripted component decoders",
"C24":"stateful model-based testing against a reference structure",
"C25":"property-based testing of encoded recordings with scripted and real encoders",
"C26":"property-based testing: metamorphic (renaming) and partition invariants",
"C27":"whole runs with generated arguments, results checked against the words and repeated decoding",
"C28":"whole runs on generated recordings, results checked against the words and repeated decoding",
"C30":"whole runs with generated arguments, results checked against the words and repeated decoding",
"C31":"differential testing of whole script runs on generated recordings, models and arguments",
"C29":"differential testing of whole script runs on generated recordings, logs and results",
}
import sys; sys.path.insert(0,"/verif")
M={"version":1,"setup_cmd":"./setup.sh","checks":[{"property":x["id"],"quick_cmd":"./run %s"%x["id"],"thorough_cmd":"./run %s --tier thorough"%x["id"],
 "technique":"Hypothesis: "+TECH[x["id"]],"level":"exploration",
 "level_note":"Generated-input search over "+x["quantifier"]["text"]+"; holds on everything generated, no proof. Trusts the oracle in /verif (written independently of the code) and numpy/scipy; assumptions are listed in the evidence file."} for x in P],
 "not_applicable":[],"notes":"No hooks: the checks use public interfaces and replace the channel decoder by scripted ones. /repo carries fix: commits for genuine defects, listed in known_findings.jsonl and DESIGN.md."}
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
