#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "src/"
RAM, DISC, WIS = S+"models/wisard/ram.cc", S+"models/wisard/discriminator.cc", S+"models/wisard/wisard.cc"
HND = S+"models/wisard/ramdatahandle.cc"
CLU, CW = S+"models/cluswisard/cluster.cc", S+"models/cluswisard/cluswisard.cc"
BLE, UTI = S+"common/bleaching.cc", S+"common/utils.cc"
BIN, DAT = S+"data/bininput.cc", S+"data/dataset.cc"
WW, CWW, DW, KW = S+"wrappers/wisardwrapper.cc", S+"wrappers/cluswisardwrapper.cc", S+"wrappers/discriminatorwrapper.cc", S+"wrappers/kernelcanvaswrapper.cc"
KC, SYN, HDR, BND = S+"binarization/kernelcanvas.cc", S+"synthetic_data/synthesizers.cc", "include/wisardpkg.hpp", S+"wisard_bind.cc"

prop("C01", "RAM responses count exactly the matching learned entries",
 "After any sequence of learning, a discriminator answers an entry with one number per RAM: exactly how many learned entries carried the same values at all the positions that RAM observes (0 for a pattern it never saw). With ignoreZero on, a RAM that observes only zeros answers 0 and every other answer is unchanged. This holds for every base and every address size up to the 2^64 address limit, for single entries and batches, and for any number of repetitions.",
 ["inputs", "histories", "configurations"],
 "all entry sizes, bases, address sizes (2..64), explicit or random addressing, ignoreZero on/off, training histories with repetitions up to 10^5, and queries near and far from the learned entries",
 "The tests train 4 fixed entries of 9 bits with addresses of 3 bits and only check the length of the answer; wide addresses, other bases, collisions and large counts are never reached.",
 [RAM, DISC, DW], [("address computation over the observed positions", RAM+": getIndex"), ("counter increment / lookup", RAM+": train/getVote"), ("fan-out over RAMs", DISC+": train/_classify")],
 ["Discriminator.train", "Discriminator.classify", "Discriminator.json()['mapping']"],
 [("positions", "address -> number of learned entries", RAM), ("addresses", "input positions a RAM observes", RAM)])

prop("C02", "Addressing covers the input exactly as configured",
 "With random addressing every RAM observes exactly addressSize valid input positions; when the entry size is not a multiple of it, completeAddressing adds one RAM so that every position is observed at least once, and without it only the remainder is left out; no position is observed twice except for the slots needed to complete the last RAM. Explicit indexes (consecutive groups of addressSize) or an explicit mapping (per class for Wisard) are used verbatim, and an addressing stays fixed for the life of the model.",
 ["inputs", "configurations"],
 "all (entry size, address size, completeAddressing, indexes/mapping, random seed/clock) combinations for Discriminator, Wisard classes and ClusWisard discriminators",
 "The tests check two fixed explicit mappings; random addressing, non-divisible sizes, completeAddressing=False and explicit indexes are never checked.",
 [DISC, WIS, CLU, DW, WW, UTI], [("random shuffle and completion", DISC+": setRAMShuffle"), ("explicit indexes", DISC+": setRAMByIndex"), ("explicit mapping", DISC+": setRAMByMapping"), ("choice per class", WIS+": makeDiscriminator")],
 ["json()['mapping'] of every discriminator", "len(Discriminator.classify(x))"])

prop("C03", "Wisard classification is the bleaching decision over class responses",
 "Wisard classifies an entry by counting, per class, the RAMs whose response reaches a threshold that starts at 1 and rises by 1 while the leading class is ahead of the runner-up by less than `confidence` RAMs and still has more than one such RAM; the class with the highest count at the final threshold is returned, the last one in label order on a tie, and the empty label if nothing was ever learned. With bleaching disabled the threshold stays at 1. The decision always terminates, and the lead is judged alike whatever order the labels sort in.",
 ["inputs", "histories", "configurations"],
 "all trained models (any classes, counts, bleaching on/off, confidence 1..#RAMs, ignoreZero, base) and all query entries, singly or in batches",
 "test_classify asks for the labels of its own linearly separable training set; ties, multi-step bleaching, confidence > 1 and disabled bleaching are never exercised.",
 [WIS, BLE, WW], [("threshold loop", BLE+": makeConfidenceless"), ("lead test", BLE+": isThereAmbiguity"), ("winner", BLE+": getBiggestCandidate"), ("votes per class", WIS+": __classify")],
 ["Wisard.classify"])

prop("C04", "Class labels are opaque strings",
 "Any text is a valid class label and comes back byte for byte: from classification, from mental images, from data sets, and after saving and reloading a model. Renaming the labels of a training history by a one-to-one map renames the results and changes nothing else (ties aside).",
 ["inputs", "histories"],
 "all label sets (empty string, separators such as '::', '.', '#', '__', quotes, non-ASCII, prefixes of one another, long strings) for Wisard, ClusWisard and DataSet, and all injective renamings",
 "The tests only ever use the labels 'cold', 'hot' and 'a'.",
 [WIS, CW, CWW, WW, BLE, DAT], [("label -> discriminator map", WIS), ("discriminator keys derived from labels", CW+": classify"), ("label recovered from the key", CW+"/"+CWW), ("labels encoded in files", DAT+": save")],
 ["Wisard.classify", "ClusWisard.classify", "getMentalImages", "json", "DataSet.getLabel"])

prop("C05", "Wisard learning is additive, order-free and isolated per class",
 "What a Wisard has learned depends only on the multiset of (entry, label) pairs it was trained with: the order of the pairs and their split into train calls do not matter, and neither do other operations that only read. Training one class never changes the responses or mental image of another.",
 ["histories", "inputs"],
 "all multisets of labelled entries, all permutations and batch splits of them, with fixed addressing (indexes, mapping or a reloaded model)",
 "Tests train once in one order and never compare two histories.",
 [WIS, DISC, RAM], [("class dispatch", WIS+": train"), ("commutative counters", RAM+": train")],
 ["Wisard.train", "Wisard.classify", "Wisard.json", "getMentalImages"])

prop("C06", "Forgetting is the exact inverse of learning",
 "After leaveOneOut or leaveMoreOut of entries that had been learned under those labels, the model answers every query (classification, degrees, mental images, RAM contents) as if those entries had never been learned, while the other classes are untouched. Forgetting under a label that was never trained changes nothing.",
 ["histories", "inputs"],
 "all interleavings of train, leaveOneOut and leaveMoreOut in which only learned pairs are forgotten, including complete forgetting, re-learning, and forgetting after a reload",
 "No test calls leaveOneOut or leaveMoreOut.",
 [WIS, DISC, RAM], [("counter decrement", RAM+": untrain"), ("per-label dispatch", WIS+": leaveOneOut/leaveMoreOut"), ("training counter", DISC+": untrain")],
 ["Wisard.leaveOneOut", "Wisard.leaveMoreOut", "Wisard.classify", "getMentalImages", "json"])

prop("C07", "Saved Wisards and Discriminators reload as equal models",
 "A model built from json() output equals the model that was saved: same options, addressing and RAM contents, hence the same classifications and mental images, and it keeps behaving identically under further training and forgetting, including for classes first seen after the reload when their addressing was configured. This holds for every reachable model, including untrained ones, and saving the reloaded model gives the same content again.",
 ["histories", "configurations", "inputs"],
 "all option combinations and training/forgetting histories followed by one or more save/reload steps at any point and further operations",
 "test_json reloads one small trained model per class and compares the classification of the training data.",
 [WIS, DISC, RAM, HND, UTI], [("model description", WIS+": getConfig/getClassesJSON"), ("rebuild", WIS+": Wisard(std::string)"), ("RAM content encoding", HND+": data/setData"), ("RAM split", DISC+": setRAMsData/getRAMsData")],
 ["Wisard(json)", "Discriminator(json)", "json()"])

prop("C08", "Saved ClusWisards reload as equal models",
 "A ClusWisard built from json() output has the same options, clusters, discriminators (in the same order, with the same addressing, RAM contents and training counts) and unsupervised cluster as the saved one; it classifies, supervised and unsupervised, identically and makes the same learning decisions afterwards.",
 ["histories", "configurations", "inputs"],
 "all option combinations and supervised/semi-supervised/unsupervised training histories followed by save/reload and further operations, with up to dozens of discriminators per cluster",
 "test_json_* reload one small model with two discriminators and compare the classification of the training data only.",
 [CW, CLU, DISC, HND], [("cluster description", CLU+": getJson"), ("rebuild", CLU+": Cluster(nl::json)"), ("options", CW+": getConfig, ClusWisard(std::string)")],
 ["ClusWisard(json)", "classify", "classifyUnsupervised", "json()"])

prop("C09", "A configuration-only save reloads as the same model without knowledge",
 "jsonConfig() can be handed to the constructor like json(): the rebuilt model has the same options, and for Wisard and Discriminator the same classes, entry sizes and addressing, but has learned nothing. Training the rebuilt model with the original entries makes it equal to the original (Wisard and Discriminator).",
 ["histories", "configurations"],
 "all option combinations and training histories of Wisard, ClusWisard and Discriminator",
 "No test reloads a jsonConfig() output.",
 [WIS, DISC, CW], [("configuration dump", WIS+"/"+DISC+"/"+CW+": jsonConfig"), ("rebuild without data", DISC+": Discriminator(nl::json)")],
 ["jsonConfig()", "constructors from string"])

prop("C10", "File-backed saves are faithful and never disturb each other",
 "json(True, prefix) stores RAM contents in files under that prefix, and loading its output gives the model as it was at the time of that save, however many other models were saved under the same prefix before or after and whatever the clock says. If a RAM file cannot be written or read back, the save or load fails with an error instead of silently giving a model without that knowledge.",
 ["histories", "configurations", "fault_sequences"],
 "all sequences of file-backed saves of several models (same or different prefix, same second or later), further training, loads in any order, missing files and unwritable prefixes",
 "No test uses json(True, ...).",
 [DISC, WIS, CLU, CW, UTI], [("file naming and writing", DISC+": getRAMsData"), ("file reading", DISC+": setRAMsData"), ("prefix per class/discriminator", WIS+": getClassesJSON, "+CLU+": getJson")],
 ["json(True, prefix)", "constructors from string", "files under prefix"])

prop("C11", "Clusters grow by the score rule and respect the discriminator limit",
 "Each entry a cluster learns goes to every discriminator whose match score (mean response over maximum response) reaches min(1, minScore + learned/threshold); if there is none, a new discriminator is created for it while the cluster has fewer than discriminatorLimit, and otherwise the best-scoring discriminator (the newest one on a tie) learns it. So every entry is learned by at least one discriminator, a cluster never exceeds its limit, and existing discriminators keep their number and addressing.",
 ["histories", "inputs", "configurations"],
 "all training histories and parameters (minScore 0..1, threshold, discriminatorLimit, base, ignoreZero, addressing options), supervised and unsupervised",
 "The tests train five fixed entries with one parameter set and never look at the clusters.",
 [CLU, CW, DISC], [("score", CLU+": getScore"), ("growth decision", CLU+": train"), ("training count", DISC+": getNumberOfTrainings")],
 ["ClusWisard.train", "json()['clusters']", "getMentalImages"])

prop("C12", "ClusWisard classifies by the best discriminator over all clusters",
 "ClusWisard classifies an entry by applying the bleaching decision (as in Wisard, with its own bleaching and confidence options) to all discriminators of all classes as separate candidates and returning the class that owns the winner. The answer is always one of the trained classes, or empty if none was trained.",
 ["inputs", "histories", "configurations"],
 "all supervised/semi-supervised models with any number of classes and discriminators per class, and all queries",
 "Tests classify the five training entries with at most a couple of discriminators per class.",
 [CW, CLU, BLE, CWW], [("candidate per discriminator", CW+": classify"), ("owner of the winner", CW+"/"+CWW)],
 ["ClusWisard.classify"])

prop("C13", "Semi-supervised training learns each entry exactly once, labelled first",
 "ClusWisard training with a partial label dictionary first learns every labelled entry under its label, in input order, and then each remaining entry exactly once, in input order, under the class the model assigns to it at that moment. Dictionary keys that are not input positions are ignored, and a dictionary that is larger than the data or labels no input position is rejected without learning anything.",
 ["inputs", "histories"],
 "all data sets and partial labelings (including complete, empty, out-of-range and negative keys), on fresh and already trained models",
 "test_classify_semisupervised compares two dictionaries by their keys only, and the other test only checks that nothing raises.",
 [CW], [("split into labelled and unlabelled entries", CW+": train(images, map)"), ("self-labelled training", CW+": train(image)")],
 ["ClusWisard.train(X, dict)", "json()['clusters'] counts and contents"])

prop("C14", "Unsupervised learning accumulates and is independent of the classes",
 "trainUnsupervised feeds one cluster, with the model's own options (base included), across any number of calls, whatever supervised training happens in between or before; it never changes the supervised classes and supervised training never changes it. classifyUnsupervised returns the index of the winning discriminator by the bleaching decision, always an existing one, or the empty label before any unsupervised training.",
 ["histories", "configurations", "inputs"],
 "all interleavings of trainUnsupervised, train, reload, classify and classifyUnsupervised over all options",
 "The tests call trainUnsupervised once on a fresh model with default options and never look at the result.",
 [CW, CLU], [("unsupervised cluster set-up", CW+": trainUnsupervised"), ("unsupervised decision", CW+": classifyUnsupervised")],
 ["trainUnsupervised", "classifyUnsupervised", "json()['unsupervisedCluster']"])

prop("C15", "Mental images count the learned non-zero values per position",
 "The mental image of a class (of each discriminator, for ClusWisard) has one number per input position: how many of the entries it has learned and not forgotten were non-zero there, times the number of RAM slots that observe that position (0 if none does). This holds for every base and every address size up to the 2^64 limit.",
 ["histories", "inputs", "configurations"],
 "all training/forgetting histories, bases, address sizes 2..64, addressings",
 "test_mental_image checks one 9-bit example with 3-bit addresses.",
 [RAM, DISC, WIS, CLU, CW], [("address to digits", RAM+": convertToBase"), ("accumulation per slot", RAM+"/"+DISC+": getMentalImage")],
 ["Wisard.getMentalImages", "ClusWisard.getMentalImage(s)", "Discriminator::getMentalImage (C++)"])

prop("C16", "Reported degrees describe the decision that was taken",
 "With the degree options on, classify returns for each entry the same class as with them off, plus exactly the requested fields. activationDegree is the share (0 to 1) of that class's RAMs that are active at the final bleaching threshold, confidence is the relative lead of the winner's count over the next lower count, and classesDegrees lists every candidate once, in label order, with its share of all active RAMs (summing to 1, or all 0 if none is active).",
 ["inputs", "histories", "configurations"],
 "all models (any addressing, including explicit indexes and mappings), all combinations of the three return options, Wisard and ClusWisard, list and DataSet inputs",
 "No test switches the degree options on.",
 [WW, CWW, BLE], [("degree computation", WW+": setClassifyOutput/getClassesDegrees"), ("confidence", BLE+": getConfidence")],
 ["classify with returnActivationDegree/returnConfidence/returnClassesDegrees"])

prop("C17", "BinInput is an exact fixed-size bit vector",
 "A BinInput of size n built from a bit list, from n or from data() output holds exactly those n bits (zeros when built from n); get and [] read bit i, set changes bit i and no other, and size never changes. data() and reconstruction are inverse for every size and content, and any index outside 0..n-1 is rejected without effect.",
 ["inputs", "histories"],
 "all sizes (including 0, non-multiples of 8 and large ones), contents and get/set/serialise sequences",
 "No test touches BinInput.",
 [BIN, UTI], [("bit packing", BIN+": get/set/setConfig"), ("size byte and payload", BIN+": data, BinInput(const std::string&)")],
 ["BinInput"])

prop("C18", "DataSet keeps entries and labels in order and survives a file round-trip",
 "A DataSet returns, at each index, exactly the entry and label that were added there; an entry added without a label has none, and an index outside the set is rejected. Saving it and loading the file gives an equal data set (entries, labels, missing labels, order, also for an empty one), saving again under the same name replaces the file, a file that cannot be written is an error, and saving changes nothing in memory.",
 ["histories", "inputs"],
 "all sequences of add (list or BinInput, with or without label), save, load, re-save, with entries of any sizes and arbitrary label strings",
 "No test touches DataSet.",
 [DAT, BIN, UTI], [("append and label map", DAT+": add"), ("file format", DAT+": save, DataSet(std::string)")],
 ["DataSet.add/get/getLabel/size/save", "DataSet(filename)"])

prop("C19", "Bit lists and packed inputs are interchangeable",
 "Training or classifying with BinInput or DataSet objects gives exactly the same model and the same answers as doing so with the equivalent lists of bits and labels.",
 ["inputs", "histories"],
 "all binary data sets, options and mixtures of the two representations in one history, for Discriminator and Wisard",
 "No test trains or classifies with BinInput or DataSet.",
 [WIS, DISC, RAM, WW, BIN, DAT], [("templated train/classify paths", WIS+", "+DISC+", "+RAM)],
 ["Discriminator.train/classify", "Wisard.train/classify"])

prop("C20", "Base64 follows RFC 4648 and round-trips every byte string",
 "Encoding any byte string gives its RFC 4648 base64 text with padding, and decoding that text gives back the same bytes, for every length and every byte value.",
 ["inputs"],
 "all byte strings (every length class mod 3, embedded zero bytes, bytes >= 0x80)",
 "test.cc prints one encoded and decoded ASCII string without checking it.",
 [UTI], [("encoder", UTI+": Base64::encode"), ("decoder", UTI+": Base64::decode")],
 ["Base64::encode/decode (C++)", "BinInput.data", "RAMDataHandle.data"])

prop("C21", "RAMDataHandle reads and edits saved RAM contents faithfully",
 "A handle built from the saved data of one or more RAMs reads exactly the stored address/count pairs of each RAM, in order (0 for an absent address), set changes exactly one of them, and data() of one or all RAMs encodes the current contents so that a new handle reads the same. compare is true exactly when both handles hold the same contents; reading never changes a handle, and data in the documented format (little-endian 64-bit address, 32-bit count, base64, RAMs joined by '.') keeps its meaning.",
 ["inputs", "histories"],
 "all lists of RAM contents (including empty RAMs, 64-bit addresses, negative and large counts) and sequences of get/set/data/compare on several handles",
 "No test touches RAMDataHandle.",
 [HND, UTI], [("decoding", HND+": setData/dataToRam"), ("encoding", HND+": data"), ("comparison", HND+": compare")],
 ["RAMDataHandle.get/set/data/compare"])

prop("C22", "KernelCanvas activates the nearest kernels, as a fixed binary code",
 "transform returns numberOfKernels*bitsByKernel values, all 0 or 1 and equal within each kernel's block of bits; each point activates the round(activationDegree*numberOfKernels) kernels nearest to it after normalisation by the mean and deviation of the sequence, and the code is the union over the points. The result is a function of the canvas and the sequence only (same input, same output; rescaling the data changes nothing; the order of the points does not matter unless useDirection is on). With useDirection a point is compared together with its two predecessors, each with the unit direction of its step to the next point; nearest means nearest in that vector.",
 ["inputs", "configurations", "histories"],
 "all dimensions, kernel counts, bitsByKernel, activation degrees, useDirection on/off, and all finite sequences of points (non-constant coordinates for the nearest-kernel part)",
 "test_transform checks one diagonal sequence for 0/1 values; useDirection=True is constructed but never used to transform.",
 [KC, KW], [("normalisation", KC+": multDimMean/multDimStd/calculatePoint"), ("distance ranking", KC+": calculateDistances/activateKernels")],
 ["KernelCanvas.transform"])

prop("C23", "Synthetic data reflect the mental image",
 "Every synthetic entry has the length of the mental image and only 0/1 values; positions with intensity 0 are never set, positions with the maximum intensity always are, and over many draws each position is set in proportion to its intensity relative to the maximum. An image that is zero everywhere gives all-zero entries.",
 ["inputs", "histories"],
 "all non-negative mental images (including all-zero and very uneven ones) and all draws at any clock value",
 "No test touches Synthesizer.",
 [SYN, UTI], [("pattern cube", SYN+": makeCube"), ("random layer", SYN+": make")],
 ["Synthesizer.make"])

prop("C24", "Invalid configurations and mismatched arguments are rejected",
 "A configuration outside the documented limits (address size or entry size below 2, address larger than entry, base below 2, base^addressSize above 2^64, indexes that are not a permutation of the positions, mapped positions outside the entry, confidence above the number of RAMs, minScore outside 0..1, threshold or discriminatorLimit below 1, bad KernelCanvas parameters) or a call whose data and labels differ in number is refused with an ordinary error, at the latest when the model would first be used; it never crashes, hangs or is silently accepted. Everything inside the limits is accepted.",
 ["configurations", "inputs"],
 "all configurations around each limit, on both sides of it, for every class and both constructor families (keyword and JSON options)",
 "No test passes an invalid configuration.",
 [DISC, RAM, WIS, CW, KC, UTI], [("limit checks", DISC+": checkAddressSize/checkBase/checkListOfIndexes"), ("address space limit", RAM+": checkLimitAddressSize"), ("parameter checks", CW+": checkConfigInputs, "+KC+": checkInputs"), ("size checks", WIS+": checkInputSizes/checkConfidence")],
 ["constructors", "train", "classify"])

prop("C25", "Rejected entries leave no trace",
 "An entry of the wrong size, or with a value below 0 or not below the base at an observed position, is refused with an ordinary error by training, forgetting and classification. The refused entry is not learned even in part, no class comes into being for it, and the model goes on working: its state is that of the accepted entries before it.",
 ["inputs", "histories", "fault_sequences"],
 "all histories in which valid and invalid entries (wrong length, empty, value too large or negative at any position) are mixed, singly and inside batches, for Discriminator, Wisard and ClusWisard; empty batches included",
 "No test passes an invalid entry.",
 [DISC, RAM, WIS, CW, CLU, KC], [("entry size check", DISC+": checkEntrySize"), ("value check", RAM+": checkPos"), ("creation of classes", WIS+": train, "+CW+": train")],
 ["train", "leaveOneOut", "classify", "json"])

prop("C26", "Arbitrary serialized input is handled or rejected cleanly",
 "Whatever string or file content is given to the constructors that load models, RAM data, packed inputs or data sets, or to the base64 decoder, the result is either an ordinary error or an object on which every operation is memory-safe and terminates. No input corrupts memory or kills the process.",
 ["inputs", "fault_sequences"],
 "all byte strings up to a few kilobytes: random, and mutated or truncated from valid saves (structure-aware and coverage-guided), with RAM counts that fit the bleaching loop (below 10^6) and entry sizes below 10^6",
 "No test loads anything but its own correct output.",
 [UTI, HND, BIN, DAT, DISC, WIS, CW, CLU, RAM], [("base64 decoding", UTI), ("RAM data parsing", HND+": setData"), ("model parsing", DISC+": Discriminator(nl::json), setRAMsData"), ("data set parsing", DAT)],
 ["constructors from string", "Base64::decode"])

prop("C27", "Reading never changes a model",
 "Classification (also with degrees, unsupervised, or of data sets), mental images, json, jsonConfig, file-backed saves and getsizeof leave a model exactly as it was, in any number and order, including for labels it does not know: its saved content, its later answers and its later learning are the same as if they had not been called. The verbose option only prints.",
 ["histories"],
 "all interleavings of reading operations into training histories of Wisard, ClusWisard and Discriminator, with verbose on and off",
 "No test compares a model before and after a read.",
 [WIS, CW, CLU, DISC, RAM, HND], [("lookups that must not insert", RAM+": getVote, "+CW+": getMentalImage")],
 ["json before/after", "classify", "getMentalImages"])

prop("C28", "Models are independent of one another",
 "Operations on one model, data set, handle or packed input never change the behaviour or content of another one, whether they were created separately, loaded from the same saved string or file, or copied from one another (C++).",
 ["histories"],
 "all interleavings of operations on several objects that share configuration, data, saved strings or copies",
 "Tests use one or two objects and never modify one after deriving another.",
 [WIS, CW, CLU, DISC, RAM, HND, UTI, BIN, DAT], [("value ownership of discriminators", CLU+", "+WIS), ("shared tables", UTI+": Base64::indexMap")],
 ["all model operations on interleaved objects"])

prop("C29", "The C++ header and the Python module behave the same",
 "For the same configuration, addressing and sequence of operations, the single-header C++ distribution, the header generated from the sources and the Python module give the same results, accept each other's saved models and data, and reject the same inputs.",
 ["inputs", "histories", "configurations"],
 "all operation sequences expressible through all three, with explicit addressing",
 "The only C++ test prints one classification without checking it, and nothing compares the two distributions.",
 [HDR, "generate_include.py", BND, WW, CWW, DW, KW], [("header generation", "generate_include.py"), ("bindings", BND)],
 ["results of each distribution for the same operations"])

prop("C30", "Model size is determined by the distinct patterns learned",
 "getsizeof grows by the same fixed amount for every new pattern a RAM stores, and not at all for entries that bring no new pattern or for reads; equal models (for instance after a reload) report equal sizes, and the size of a model is the sum of its parts.",
 ["histories", "inputs"],
 "all training histories of Discriminator, Wisard and ClusWisard, with repetitions and reloads",
 "test_sizeof compares the size of one model with the length of its JSON text.",
 [RAM, DISC, WIS, CLU, CW], [("accounting", RAM+": getsizeof"), ("sums", DISC+", "+WIS+", "+CLU+", "+CW+": getsizeof")],
 ["getsizeof"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
