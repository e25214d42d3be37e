#!/usr/bin/env python3
# Source of properties.jsonl
import json, os
P = []
def prop(id, title, st, over, qt, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})

prop("P01", "UTF-8 input is decoded exactly; malformed input is rejected",
 "Every well-formed UTF-8 text is split into exactly its code points, each reported with its own bytes and character class, and every structurally malformed byte sequence (stray, missing or cut-off continuation bytes, invalid lead bytes) is rejected with an error and never read past its end. The class a code point gets depends only on the code point.",
 ["inputs"], "all byte strings (all code points, all malformed sequences, at every position of the input)",
 "Tests decode a few Japanese strings; malformed and boundary byte sequences (truncation at the very end, overlong forms) form a space a sample does not settle.",
 ["src/util/characters.cc", "src/util/characters.h", "src/core/analysis/analysis_input.cc"],
 [("UTF-8 decoder with length lookup and continuation checks", "src/util/characters.cc"), ("character class table", "src/util/characters.cc:getCodeClass")])
prop("P02", "CSV input is read per RFC 4180 and reading always terminates",
 "Reading a CSV text yields exactly the rows and fields RFC 4180 assigns to it (quoting, doubled quotes, LF and CRLF, empty fields, missing final newline), with correct line numbers. A malformed row stops the reader with failure and no input makes it loop or read outside its buffer.",
 ["inputs"], "all texts over separator, quote, CR, LF and ordinary characters",
 "Tests have two dozen hand-made rows; interactions of quote, separator and end of input are combinatorial.",
 ["src/util/csv_reader.cc", "src/util/csv_reader.h", "src/util/char_buffer.h"],
 [("single-pass row scanner", "src/util/csv_reader.cc:nextLine"), ("unescape into paged buffer", "src/util/csv_reader.cc:unescapeString")],
 [("position", "start of the next row", "src/util/csv_reader.h")])
prop("P03", "Serialized data reads back equal; damaged data is refused, never misread",
 "Any structure written by the serializer is read back equal to the original and consumes exactly the bytes written. A truncated buffer is reported as failure, and reading never touches bytes outside the buffer.",
 ["inputs", "fault_sequences"], "all values at integer/length boundaries, all nestings used, every truncation point",
 "Tests round-trip a handful of values and never truncate.",
 ["src/util/serialization.h", "src/util/coded_io.cc", "src/util/coded_io.h", "src/util/serialization_flatmap.h"],
 [("varint coder", "src/util/coded_io.cc"), ("Saver/Loader operators", "src/util/serialization.h")])
prop("P04", "The built dictionary holds exactly the entries of the CSV",
 "For every dictionary source and field schema, the built dictionary contains exactly one entry per source row under its surface, and every string and integer field of an entry reads back exactly as written, and every string-list and key-value field holds the same items as written (their order is not kept). Rows that cannot be represented are refused with an error instead of being stored altered.",
 ["inputs", "configurations"], "all small dictionaries: duplicated, prefix-sharing, empty, escaped and multi-byte field contents; all field types, shared storages and alignments",
 "Tests build a few tiny dictionaries; storage sharing, value dedup, pointer alignment and ordering interact combinatorially.",
 ["src/core/dic/dic_builder.cc", "src/core/dic/dic_build_detail.cc", "src/core/dic/field_import.cc", "src/core/dic/entry_builder.cc", "src/core/dic/dic_entries.cc", "src/core/dic/field_reader.h", "src/core/dic/darts_trie.cc"],
 [("field importers and readers", "src/core/dic/field_import.cc"), ("entry table writer", "src/core/dic/entry_builder.cc"), ("double-array index", "src/core/dic/darts_trie.cc")])
prop("P05", "Exactly the dictionary words occurring in the text become candidates",
 "For every input and dictionary, the lattice contains, at every character position, one candidate for each dictionary entry whose surface occurs there, with the right span, and no other dictionary candidate. Surfaces never match in the middle of a multi-byte character.",
 ["inputs", "configurations"], "all inputs over a small alphabet x all small dictionaries",
 "Tests check selected words on selected sentences; prefix nesting and boundaries are unbounded.",
 ["src/core/analysis/dictionary_node_creator.cc", "src/core/dic/darts_trie.cc", "src/core/analysis/lattice_builder.cc", "src/core/analysis/analyzer_impl.cc"],
 [("incremental prefix traversal", "src/core/analysis/dictionary_node_creator.cc"), ("trie traversal", "src/core/dic/darts_trie.cc")])
prop("P06", "Character-class unknown words are generated exactly as specified",
 "A chunking rule creates, at every position, one candidate for each prefix of the run of characters of its class which starts there, and a single-character rule creates exactly one candidate per character of its class. Spans which are dictionary words get no such candidate, no candidate covers characters outside the class, the placeholder feature tells whether dictionary words start with the candidate's surface, and rules of low priority are used exactly when the other candidates cannot cover the text.",
 ["inputs", "configurations"], "all strings over an alphabet with several members per class, x dictionaries x rules",
 "Tests check a few strings.",
 ["src/core/analysis/unk_nodes_creator.cc", "src/core/analysis/unk_nodes.cc"],
 [("chunking and single makers", "src/core/analysis/unk_nodes_creator.cc")])
prop("P07", "Numeric expressions are recognized as one unknown word",
 "The numeric rule proposes, at every position, exactly the longest numeric expression starting there (digit runs, digits with commas and points, fractions, prefixes and suffixes), unless it is a dictionary word with the same features, and never proposes a span with dangling punctuation or non-numeric characters, also when the expression is longer than the length limit and is cut.",
 ["inputs"], "all strings over one representative of each numeric character kind",
 "Tests enumerate about thirty strings; the grammar has many interacting exceptions.",
 ["src/core/analysis/numeric_creator.cc", "src/core/analysis/charlattice.cc"],
 [("numeric pattern functions", "src/core/analysis/numeric_creator.cc")])
prop("P08", "Onomatopoeic repetitions are recognized exactly",
 "The onomatopoeia rule proposes a word at a position exactly when a pattern of 2 to 4 characters of the rule's class is immediately repeated there (ABAB, ABCABC, ABCDABCD), its characters share a class with its first character (a hiragana and a katakana letter do not mix), and the whole is not a dictionary word itself; wherever it stands in the text including the very end.",
 ["inputs"], "all kana/other strings up to the longest pattern plus context, at every position",
 "Tests cover some patterns in mid-sentence; end-of-text and nested repeats are not enumerated.",
 ["src/core/analysis/onomatopoeia_creator.cc"], [("pattern finder", "src/core/analysis/onomatopoeia_creator.cc:FindOnomatopoeia")])
prop("P09", "Normalization finds the dictionary word behind a lengthened spelling",
 "The normalization rule proposes a candidate exactly for those spans that reduce to a dictionary word by one or more of the defined replacements (long vowel marks, small letters) and deletions after their first character; the candidate keeps the features of that word, shows the text as its surface and is marked with the operations used. Text spelled like the dictionary word gets no candidate through unmodified characters alone.",
 ["inputs", "configurations"], "all strings over vowels, prolongation marks, small kana x small dictionaries",
 "Tests check selected spellings; combinations of replacement and deletion at each position are exponential.",
 ["src/core/analysis/charlattice.cc", "src/core/analysis/charlattice.h", "src/core/analysis/unk_nodes_creator.cc"],
 [("character lattice and traversal", "src/core/analysis/charlattice.cc")])
prop("P10", "Every accepted input gets a complete segmentation",
 "For every accepted input, dictionary, unknown-word rule set and beam configuration, analysis either reports an error or returns morphemes whose surfaces concatenate to exactly the input. Surfaces of returned morphemes follow each other without gap or overlap, including for empty input and input the dictionary does not cover.",
 ["inputs", "configurations"], "all short inputs x dictionaries x beam settings",
 "Tests analyse a few sentences with one configuration each.",
 ["src/core/analysis/analyzer_impl.cc", "src/core/analysis/lattice_builder.cc", "src/core/analysis/analysis_result.cc", "src/core/analysis/output.cc"],
 [("reachability check of the lattice", "src/core/analysis/lattice_builder.cc"), ("path following", "src/core/analysis/analysis_result.cc")])
prop("P11", "The returned analysis is the best-scoring path",
 "The score of every path kept at the end equals the sum of the model weights of all unigram, bigram and trigram features of its morphemes, and with a beam as wide as the number of paths the kept paths are exactly the highest-scoring ones in order. Whatever the beam, the first path reported is never worse than any other reported path.",
 ["inputs", "configurations"], "all small lattices (inputs x dictionaries), feature sets, weight assignments and beam widths",
 "Tests compare a few scores; optimality is a statement over all paths, which tests do not enumerate.",
 ["src/core/analysis/score_processor.cc", "src/core/analysis/analyzer_impl.cc", "src/core/impl/feature_impl_ngram_partial.cc", "src/core/analysis/perceptron.cc", "src/core/analysis/lattice_types.cc"],
 [("beam construction and scoring", "src/core/analysis/score_processor.cc"), ("partial feature hashing", "src/core/impl/feature_impl_ngram_partial.cc")])
prop("P12", "Global beam pruning is exact when wide and sound when narrow",
 "With a global beam at least as wide as the set of left contexts, analysis returns the same best path and score as without a global beam. With any narrower setting (fixed, right-checked or adaptively sized beams) every position stays reachable, the result is still a complete path, and its reported score is that path's own score.",
 ["inputs", "configurations"], "all small inputs x all beam parameter combinations",
 "Tests run one or two settings and do not compare with an unpruned analysis.",
 ["src/core/analysis/score_processor.cc", "src/core/analysis/analyzer_impl.cc"],
 [("global beam with left/right split", "src/core/analysis/score_processor.cc"), ("adaptive beam size", "src/core/analysis/analyzer_impl.cc")])
prop("P13", "An analysis does not depend on what was analysed before",
 "Analysing a sentence with a reused analyzer gives the same result (status, path, scores, output) as with a fresh one, whatever sequence of sentences, rejected inputs, beam changes and partially annotated inputs was processed before.",
 ["histories"], "all sequences up to a depth of inputs including malformed, empty, over-long and uncoverable ones",
 "Tests use an analyzer once or a few times with valid sentences.",
 ["src/core/analysis/analyzer_impl.cc", "src/core/analysis/lattice_types.cc", "src/core/analysis/extra_nodes.cc", "src/util/memory.cpp"],
 [("reset of lattice, arena and extra nodes between inputs", "src/core/analysis/analyzer_impl.cc:resetForInput")])
prop("P14", "Generated feature code computes the same scores as the interpreter",
 "An analyzer using the generated (static) feature code gives for every input the same candidates, the same feature values and bit-identical scores and paths as one interpreting the same model dynamically.",
 ["inputs", "configurations", "programs"], "all short inputs over the dictionary's characters, all feature kinds of the shipped and test models",
 "Tests compare a couple of sentences.",
 ["src/core/codegen/pattern_feature_codegen.cc", "src/core/codegen/partial_ngram_feature_codegen.cc", "src/core/impl/feature_impl_pattern.cc", "src/core/impl/feature_impl_ngram_partial.cc", "src/core/impl/feature_impl_ngram_partial_kernels.h"],
 [("static feature factory", "src/core/codegen"), ("dynamic interpreter", "src/core/impl")])
prop("P15", "All output formats describe the same analysis faithfully",
 "Each output format (juman, morphological, lattice, segmented, dictionary subset, protocol buffer) describes, for every input, the same analysed morphemes with their own surfaces and dictionary fields, in text order, with its separators and specials escaped as that format prescribes. The segmented surfaces join to the input and protobuf messages decode back to the analysis.",
 ["inputs", "configurations"], "all short inputs over dictionary, unknown, blank and special characters",
 "Tests compare some literal outputs.",
 ["src/jumandic/shared/juman_format.cc", "src/jumandic/shared/morph_format.cc", "src/jumandic/shared/lattice_format.cc", "src/jumandic/shared/subset_format.cc", "src/jumandic/shared/jumanpp_pb_format.cc", "src/core/proto/lattice_dump_output.cc", "src/core/analysis/output.cc"],
 [("formatters", "src/jumandic/shared"), ("field readers for output", "src/core/analysis/output.cc")])
prop("P16", "Merging homographs never loses dictionary entries",
 "Dictionary entries of one surface become one lattice candidate exactly when they have equal values of all fields that tell nodes apart (the string, list and number fields used in features, or, when a training loss is given, its fields of non-zero weight). Walking a candidate yields every entry of its group exactly once and no other, each with its own values of the fields that are not used in features; fields used in features but not for telling apart have the value of the first entry, as docs/spec.md says.",
 ["inputs", "configurations"], "all small sequences of rows with repeated surfaces x roles of the fields; groups of up to 1000",
 "Tests check single alias groups.",
 ["src/core/dic/entry_builder.cc", "src/core/dic/dic_entries.h", "src/core/spec/spec_compiler.cc", "src/core/analysis/output.cc", "src/core/analysis/output.h"],
 [("alias grouping", "src/core/dic/entry_builder.cc"), ("entry walker", "src/core/dic/dic_entries.h")])
prop("P17", "A model file is loaded whole or rejected",
 "A saved model loads back with identical specification, dictionary and weights and gives the same analyses. A model file that is truncated, whose header or section table is inconsistent with the file, or that is left by an interrupted save is rejected with an error, never loaded as something else; and no damaged file makes the loader crash or read outside the file.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation length and every write boundary of a save, single-byte corruptions of the header",
 "Tests save and load intact files only.",
 ["src/core/impl/model_io.cc", "src/core/impl/model_format.h", "src/util/mmap.cc", "src/core/dic/dic_builder.cc", "src/util/serialization.h"],
 [("model container reader/writer", "src/core/impl/model_io.cc"), ("spec/dictionary deserialization", "src/core/dic/dic_builder.cc")])
prop("P18", "The bounded queue is linearizable and loses no wake-up",
 "Under every interleaving of producers and consumers, each accepted item is delivered exactly once and in acceptance order, the queue never exceeds its capacity, an offer fails only when the queue is full, and a blocked consumer is always released when an item arrives.",
 ["schedules"], "all interleavings of small sets of offer/receive/wait operations",
 "No test runs the queue concurrently in a controlled way.",
 ["src/util/bounded_queue.h"], [("mutex and condition variable protocol", "src/util/bounded_queue.h")])
prop("P19", "Parallel training processes each example once and always terminates",
 "With any number of training threads and under every interleaving, each submitted example is processed exactly once and its result is handed back exactly once paired with that example, the trained weights are those of applying each example's update once, the reported loss of an epoch is the sum over its batches, and finishing or abandoning training ends all threads.",
 ["schedules"], "all interleavings up to a preemption bound of workers, submission, result collection and shutdown",
 "Training tests run with whatever schedule the OS gives.",
 ["src/core/training/training_executor.cc", "src/core/training/training_env.cc", "src/util/bounded_queue.h"],
 [("executor threads and result queue", "src/core/training/training_executor.cc")])
prop("P20", "Hash tables, caches and inline vectors behave like their models",
 "After any sequence of operations the hash map and set hold exactly the inserted and not erased elements whatever collisions occur, the cache never returns a value other than the one stored for the key and retains the entry used last, and the inline vector equals a plain sequence; every operation terminates and no element is leaked or destroyed twice.",
 ["histories", "inputs"], "all operation sequences up to a depth x all collision patterns",
 "Tests use few operations and ordinary hash values.",
 ["src/util/flatrep.h", "src/util/flatmap.h", "src/util/flatset.h", "src/util/lru_cache.h", "src/util/inlined_vector.h"],
 [("open addressing with tombstones", "src/util/flatrep.h"), ("small-size storage", "src/util/inlined_vector.h")])
prop("P21", "The memory pool hands out disjoint aligned blocks and reuses memory",
 "Every block obtained since the last reset is aligned as requested, lies inside owned memory, overlaps no other live block and keeps its contents. Repeating the same work after a reset needs no more memory.",
 ["histories"], "all allocate/reset sequences up to a depth",
 "Tests allocate a few objects.",
 ["src/util/memory.cpp", "src/util/memory.hpp"], [("bump allocation in pages", "src/util/memory.cpp")])
prop("P22", "Training moves the model toward the annotated analysis",
 "For every example the gold path found in the lattice is exactly the annotated segmentation, the loss is zero exactly when the system path equals it, and the update changes exactly the features in which the two paths differ, upward for gold and downward for system, by the step of soft confidence-weighted learning (unit variances at first, shrinking as features are seen), leaving all other weights alone.",
 ["inputs", "configurations"], "all short sentences x all segmentations as gold x training modes",
 "Tests train on a few examples and look at end results.",
 ["src/core/training/trainer.cc", "src/core/training/loss.cc", "src/core/training/gold_example.cc", "src/core/training/scw.cc", "src/core/training/trainer_base.cc"],
 [("gold path adaptation and loss", "src/core/training/loss.cc"), ("confidence weighted update", "src/core/training/scw.cc")])
prop("P23", "Partial annotations are obeyed",
 "With a partially annotated sentence, every marked boundary is a morpheme boundary of the result, no boundary falls where it is forbidden, annotated words appear with their given span and field values, and unannotated parts are analysed freely; malformed annotation is rejected, and one sentence's annotation and comment never affect another.",
 ["inputs", "histories"], "all short sentences x all markings of boundaries, non-boundaries and words, in sequences",
 "Tests check a few annotated sentences.",
 ["src/core/input/partial_example.cc", "src/core/input/partial_example_io.cc", "src/core/input/pex_stream_reader.cc", "src/core/training/partial_trainer.cc"],
 [("annotation parser", "src/core/input/partial_example_io.cc"), ("constrained lattice", "src/core/input/partial_example.cc")])
prop("P24", "A model specification means the same in every representation",
 "A specification written in the specification language compiles to the same model as the same specification built through the API, survives saving and loading unchanged, and each malformed specification is rejected with an error: text that is not in the documented grammar, and text that breaks a documented rule (names are defined once and before use; exactly one trie index, on a string field; placeholders only where allowed; no list fields in n-grams; only string fields in the training loss).",
 ["programs"], "all small specifications generated from the grammar; every single-token damage of them",
 "Tests parse about twenty fixed fragments.",
 ["src/core/spec/spec_parser.cc", "src/core/spec/spec_parser_impl.cc", "src/core/spec/spec_compiler.cc", "src/core/spec/spec_serialization.h", "src/core/spec/spec_dsl.cc"],
 [("PEG grammar", "src/core/spec/spec_grammar.h"), ("compiler", "src/core/spec/spec_compiler.cc")])
prop("P25", "Each input line produces exactly one output block, in order",
 "Processing a stream produces exactly one result per input line, in input order, over all input files; a comment line attaches to the following sentence only; a failing sentence yields one error block and does not disturb its neighbours; processing ends when the input ends, also for unreadable or empty files.",
 ["inputs", "histories"], "all short streams of sentence, comment, empty and invalid lines, with and without final newline, split over files",
 "Tests do not exercise the command-line loop.",
 ["src/jumandic/main/jumanpp.cc", "src/jumandic/main/jumanpp.h", "src/core/input/stream_reader.h", "src/core/input/pex_stream_reader.cc", "src/jumandic/shared/jumandic_env.cc"],
 [("stream reader and main loop", "src/jumandic/main/jumanpp.cc")])
prop("P26", "Recurrent-network scores do not depend on batching or caching",
 "The language-model score added to a path equals the network's score computed directly for that word sequence, whatever other candidates share the position.",
 ["inputs", "configurations"], "all small lattices x small networks",
 "Tests compare fixed sentences with one network.",
 ["src/core/analysis/rnn_scorer.cc", "src/core/analysis/rnn_scorer_gbeam.cc", "src/rnn/mikolov_rnn.cc", "src/core/analysis/rnn_id_resolver.cc"],
 [("batched network evaluation", "src/rnn/mikolov_rnn.cc"), ("rnn id resolution", "src/core/analysis/rnn_id_resolver.cc")])
prop("P27", "Settings combine by documented precedence",
 "Options given on the command line override the configuration file, a later occurrence of the same option overrides an earlier one (of several output-format flags one that was requested is used), options not given keep their defaults (language-model settings: the values stored in the model), and invalid values or unknown options are rejected; the resulting settings do not depend on the order of unrelated options, and the analyzer uses them.",
 ["inputs", "configurations"], "all sequences of up to three options, on the command line and in a file",
 "No test covers the option parser.",
 ["src/jumandic/shared/jumanpp_args.cc", "src/util/cfg.h"], [("option parser and merge", "src/jumandic/shared/jumanpp_args.cc")])
prop("P28", "Beam entries are ordered by score for every float",
 "Comparing packed beam entries orders them exactly by their score for all non-NaN values, including negatives, zeros, denormals and infinities, and unpacking yields the stored score and positions unchanged.",
 ["inputs"], "all 32-bit float scores and all position values at their boundaries",
 "Tests compare a few numbers.",
 ["src/core/analysis/score_processor.h", "src/core/analysis/score_processor.cc"], [("order-preserving packing of float scores", "src/core/analysis/score_processor.h")])
prop("P29", "Top-k selection keeps the k best",
 "Selecting the best k of n scored items keeps exactly the k highest-scoring ones for every multiset of scores, every n and k, in the order required, and reports how many were kept.",
 ["inputs"], "all score multisets up to a size, all k",
 "Tests use one or two random vectors.",
 ["src/util/stl_util.h", "src/core/analysis/score_processor.cc"], [("partition/selection helpers", "src/util/stl_util.h")])
prop("P30", "Analyzers sharing one model do not influence each other",
 "Several analyzers created from one loaded model may run at the same time: under every interleaving of their steps each returns what it returns alone, and no shared state is written after loading.",
 ["schedules"], "all interleavings of analysis stages of 2-3 analyzers; concurrent runs under a race detector",
 "Tests are single-threaded.",
 ["src/core/core.cc", "src/core/env.cc", "src/core/analysis/analyzer_impl.cc", "src/core/dic/dic_entries.cc"], [("immutable shared core", "src/core/core_types.h")])
prop("P31", "Numbers and strings are parsed and printed exactly",
 "Numeric text is accepted exactly when it denotes a value of the target type and then yields that value; string comparison, ordering, searching and formatting work on whole strings, byte for byte, including embedded zero bytes.",
 ["inputs"], "all strings over digits, sign, point, blanks and boundary magnitudes; all byte strings up to a length",
 "Tests check a few literals.",
 ["src/util/parse_utils.cc", "src/util/string_piece.h", "src/util/string_piece.cc", "src/util/format.h"], [("number parsing", "src/util/parse_utils.cc"), ("string views", "src/util/string_piece.h")])
prop("P32", "Annotated training sentences are read exactly",
 "Reading a training corpus in the CSV or the morphological format yields, for every sentence, the surface and the field values of each word exactly as written, detects sentence boundaries and comments, and reports malformed lines as errors instead of dropping or merging words.",
 ["inputs"], "all short corpora over the format's structural characters",
 "Tests read a few sentences.",
 ["src/core/training/full_example.cc", "src/core/training/training_io.cc"], [("example reader", "src/core/training/full_example.cc")])
prop("P33", "Every primitive feature has its documented value on every node",
 "For every input, dictionary and column layout, each primitive feature of each lattice node has the value its documentation gives it: placeholders of unknown-word handlers, codepoints and character types around and inside the word (sentinels outside of the text), lengths in codepoints and bytes, copied field values (equal exactly for equal values), and match conditions on strings, tuples and lists - with the branch that the condition selects. Conditions are evaluated on dictionary rows, so an unknown word has those of its template row. Dictionary-based features of the end-of-sentence node are unspecified.",
 ["inputs", "configurations"], "all texts of 1-4 characters over a 3-letter alphabet x dictionaries with every column layout of a set, list contents and handlers",
 "Tests check single features on one or two words with fields in column order.",
 ["src/core/impl/feature_impl_prim.h", "src/core/impl/feature_impl_types.h", "src/core/impl/feature_impl_pattern.h", "src/core/impl/feature_impl_compute.h", "src/core/dic/dic_feature_impl.cc"],
 [("primitive feature implementations", "src/core/impl/feature_impl_prim.h"), ("match conditions at dictionary build time", "src/core/dic/dic_feature_impl.cc")])
prop("P34", "Model development tools succeed only with a complete result",
 "Dictionary indexing, training, embedding of a network, the Jumandic bootstrap and code generation end with success only when all they were asked to do was done: the output is complete and the same as without faults. A missing or malformed input, an invalid option or a failing file operation ends with a message and a non-zero exit status, not with a crash or an endless run. An output which is not complete is never loadable as a model, also when the tool was stopped in the middle or has replaced an older output. The same inputs and options give the same output; both training tools make the same of the same.",
 ["inputs", "faults", "crash points", "configurations"], "every command x every one of its file operations failing, cut short or being the last one; every input missing or damaged; pairs of options",
 "Tests call library functions with files in memory and never run the tools, make I/O fail or stop a process.",
 ["src/core/tool/jumanpp_tool.cc", "src/core/tool/index_cmd.cc", "src/core/tool/train_cmd.cc", "src/core/tool/codegen_cmd.cc", "src/jumandic/main/jumanpp_train.cc", "src/jumandic/main/bootstrap.cc", "src/core/impl/model_io.cc", "src/core/codegen/feature_codegen.cc"],
 [("saving of models", "src/core/impl/model_io.cc"), ("commands of the tool", "src/core/tool/jumanpp_tool.cc")])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
