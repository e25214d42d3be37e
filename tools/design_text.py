# Hand-written parts of DESIGN.md; gen_design.py joins them with the scenario descriptions and the seeded bugs.
HEAD = r'''# Model checking ku-nlp/jumanpp

33 properties (properties.jsonl), all decided by model checking; none is listed as not applicable.
This file is made by `tools/gen_design.py` from `tools/design_text.py`, the scenario descriptions in `harness/*.cc`,
`checks.json`, `seeded/*/meta.json` and `known_findings.jsonl`.

## 1. Method

Every check is a *bounded model checker which runs the real code*. There is no separate model of Juman++ which could
drift from it: the transition system explored is the compiled program, rebuilt from /repo's working tree by every run.

* **Choice trees.** A scenario draws every source of nondeterminism - characters of the input, rows of the dictionary,
  options, operation sequences, truncation points, faults, crash points, scheduling decisions - through
  `Ctx::choose(n)`. `harness/mc.cc` enumerates the complete tree of choices depth first, split over 8 forked worker
  processes. One execution = one leaf. Nothing is sampled. A run which could not finish its tree within its limit says
  `exhaustive: false` in its evidence, with the number of cases done.
* **Deciding step.** Every leaf is judged by an independent reference: a second implementation of the documented
  behaviour written from the documentation and interfaces (decoder tables, CSV automaton, candidate generator,
  brute-force path enumeration, network evaluation, option table, ...), a differential partner (generated code
  against the interpreter, reused against fresh analyzer, concurrent against alone), or an invariant checked at every
  step. AddressSanitizer is on (`asan` variant), input buffers are exact heap blocks, so reads outside of an input are
  violations as well. Crashes, sanitizer reports, uncaught exceptions and non-termination (per-case watchdog) are
  attributed to the choice vector which caused them.
* **Replay.** A violation is written to `replays/<property>/<scenario>_<n>.replay`, the choice vector plus a readable
  description; `harness --replay FILE` runs exactly that execution again.
* **Threads.** The `sched` variant (P18, P19, P30) replaces mutexes, condition variables, atomics, thread creation and
  joining, and `yield` with calls into a controlled scheduler (`harness/csched.cc`): exactly one thread runs, and at
  every such operation the scheduler makes a choice. The same choice tree therefore enumerates *all* interleavings, up
  to a stated preemption bound (none for the small programs), including spurious wake-ups of condition variables.
  A vector-clock happens-before detector reports unordered conflicting accesses (memory accesses are instrumented by
  the compiler's thread sanitizer pass, the runtime is ours). Deadlock = no runnable thread. Scheduling points only at
  synchronisation operations are sufficient for data-race-free programs, and races are reported themselves.
* **Crash states** (P17). File operations of a save (mmap, msync, write, rename, ...) are intercepted. After every
  operation the visible and the durable contents are recorded; every crash state - killed between or inside writes,
  power lost with any subset of unsynced pages - is materialised and loaded by the real loader.
* **Binding to the code.** References never read the source text. Checks compare values, spans, scores, statuses and
  bytes, so refactorings leave them quiet. Where a reference needs a definition which is part of the model format (hash of
  n-grams, file layout, normalization tables) it was transcribed once, and P11/P14/P17/P33 compare it with the code on
  every case.
* **Vacuity.** Evidence counts cases, evaluations inside of cases, distinct outcomes (`sig`), for P17 crash states and for
  the thread checks schedules and transitions. A check with fewer distinct outcomes than expected is visible there.
* **Tiers.** `quick` is the check for every change (10 - 120 s with 8 cores), `thorough` has deeper bounds (numbers in brackets in the scenario lists).

`run_check.py PROPERTY --tier quick|thorough` builds the harness with CMake/Ninja in `build/<variant>` (own build
files; only /repo's sources are taken), runs its drivers, writes `evidence/<id>.json`, prints VIOLATION and
KNOWN-FINDING lines. No hooks in /repo were needed: interception is done by the linker (`--wrap`), by compiler
instrumentation and by compiling /repo's sources in variants. Nothing in /repo is guarded by a define.

Why this reaches what the tests cannot: the 281 tests run a handful of hand-picked inputs. The defects repaired below
(section 3) needed an empty field next to a quoted one, a comment line at the end of a batch, a text of exactly 32766
characters, a crash between two page writes, a particular interleaving, or a pair of options in two places -
combinations which an exhaustive enumeration of small spaces meets without anybody thinking of them.

## 2. Properties

'''
P = {
'P01': ('independent UTF-8 decoder (bit patterns by length) and a class table transcribed from the character class definitions (`char_classes.inc`).',
 'All 1.1 M scalar values and all byte sequences of three bytes are covered completely, so no code point or damage is unseen; order of class queries is varied because classes are computed by a stateful-looking table.'),
'P02': ('a state machine for RFC 4180 with LF/CRLF, written for the check; line numbers counted independently.',
 'All strings over the structural alphabet: each state of the reader meets each character after each history of 8 symbols.'),
'P03': ('structural equality after reading, exact consumption, and refusal of every strict prefix.',
 'Truncation at every byte; byte damage may be accepted with other contents (no checksum exists) but must stay inside of the buffer.'),
'P04': ('the row model: multiset of (surface, fields) as parsed by the reference CSV reader; the complete double array and all entry tables are walked, not only looked up.',
 'Rows are enumerated as sequences because string storages are shared between rows and columns: a wrong sharing shows only for particular neighbours ("follow" was added after a planted bug of that kind, s04, was missed).'),
'P05': ('every dictionary surface compared at every character position by plain string comparison.',
 'Nested prefixes, 3- and 4-byte characters whose bytes overlap with other characters, and words of every character class.'),
'P06': ('run-length computation per class; dictionary prefixes by string comparison; low-priority rules only when the independent coverage search fails.',
 'The interplay of several rules with dictionary words on all texts of up to four characters.'),
'P07': ('a recogniser for numeric expressions written as a grammar over tokens.',
 'Long digit groups around the cut limit and all token sequences; finds dangling separators which only appear in combinations (repaired: see fixes).'),
'P08': ('direct definition: pattern of 2-4 characters repeated, classes compatible, not a dictionary word.',
 'Every text of 8 characters over each alphabet contains every overlap of repetitions, including at the end of the text.'),
'P09': ('set of spellings derived by applying the documented replacements and deletions to dictionary words; operation marks recomputed.',
 'All texts of five characters over alphabets which contain each family of rules, and each table entry against each kind of neighbour.'),
'P10': ('independent search whether words and single-character rules cover the text; the result must join to the input both through the lattice and the output interface.',
 'All small texts, and lengths around the capacities of the integers holding positions and candidates (127 ... 70000): added after planted bug s10 was missed; it immediately found a genuine defect (inputs of 32766 characters).'),
'P11': ('brute force over all paths of the lattice with integer weights; n-gram hashes recomputed.',
 'All lattices of texts of up to 5 characters: ties, hash collisions, beams narrower than, equal to and wider than the number of paths.'),
'P12': ('brute-force beam: for every boundary the kept left contexts are recomputed; a wide beam must equal the unpruned analysis.',
 'All combinations of left/right/adaptive beam parameters over all small lattices, one analyzer through several texts for adaptive sizes.'),
'P13': ('a fresh analyzer for the last text of each history.',
 'Histories contain abandoned stages, failing inputs, plugins and setting changes; 34 operations, all sequences of three.'),
'P14': ('differential: the same model interpreted, compared on complete dumps (nodes, feature values, beams, scores) bit by bit.',
 'The code generator is run by the check itself for seven specifications which contain every kind of feature and 0-17 n-grams of each order (unrolled loops have remainders).'),
'P15': ('a decoder for each format; fields read from the dictionary rows, not through the formatter.',
 'Pieces contain every character which is special in some format (space, tab, quote, backslash, slash, hash, EOS).'),
'P16': ('reference grouping of rows by the fields which tell nodes apart.',
 'All row sequences over all role assignments; groups of up to 1000 rows exceed every inline buffer.'),
'P17': ('a loaded model must be byte-equal in all sections to the saved one, or be refused; crash states must load as the old, the new or no model.',
 'Every truncation, every header byte, every crash state. The "header" scenario (capacity of the section table) found a genuine defect.'),
'P18': ('linearizability of histories against a bounded FIFO model; exact delivery; no lost wake-up (deadlock detection).',
 'All interleavings, which tests can only hope for. Sequence counters beyond 2^32 in the thorough tier.'),
'P19': ('event log: each example prepared, computed and returned once; weights equal the sum of each update once; all threads end.',
 'All interleavings up to the bound, including abandoning the run after each number of results, with failing examples.'),
'P20': ('std::map / std::set / std::vector / a reference LRU; element life cycle counted.',
 'All operation sequences on all collision layouts of a small key domain, including erase-reinsert over tombstones and growth.'),
'P21': ('interval overlap, alignment, poisoned contents under ASan; use after repeated reset constant.',
 'All histories of four steps. Alignments up to 1024 with pages of 4096 were added after planted bug s21 was missed.'),
'P22': ('gold path, loss and feature difference recomputed from the nodes of the lattice; scw update recomputed in double precision.',
 'Every annotated sentence of up to three words against six training specifications; repeated features, hash collisions down to 4 weights.'),
'P23': ('independent parser of the format gives constraints; an exhaustive path search tells whether they can be obeyed.',
 'All markings of all short texts, streams of sentences (constraints and comments must not leak).'),
'P24': ('a reference reader of the language documented in docs/spec.md builds the same model through the API; compiled specifications are compared field by field and after save/load.',
 'Every single-token damage and every cut of two specifications which contain every statement.'),
'P25': ('concatenation of the blocks of sentences analysed alone.',
 'main() itself is run on all streams and lists of files, with missing, empty and directory inputs.'),
'P26': ('own forward evaluation of the network (hidden state, maximum-entropy part) for every path.',
 'Paths which share words and positions but differ in history: collapsing of paths and batches is exactly what could go wrong.'),
'P27': ('table of 63 options with types and defaults; reference merge of sources.',
 'All pairs of options split over sources in every way.'),
'P28': ('float comparison itself.', 'All 2^32 floats, so no special value can be missed.'),
'P29': ('sorting.', 'All vectors with ties and all permutations up to eight elements.'),
'P30': ('results of each analyzer alone; race detector over every instrumented access.',
 'All interleavings of stages; shared mutable state is found even when the results happen to agree.'),
'P31': ('schoolbook arithmetic, std::string.', 'All strings of five bytes over an alphabet with NUL, sign, space and non-digits near digits.'),
'P32': ('independent readers of the two formats.', 'All corpora of six tokens: comments, quotes, separators and line ends in every order; batches of sentences from environments.'),
'P33': ('feature values recomputed from text, dictionary rows and the documentation.', 'All column layouts (placement of features decides bit positions) and 1-70 conditions (several words of bits).'),
'P34': ('run of the same command without faults; the library; the other training tool.', 'Every file operation of every command is made to fail, cut short or the last one by a shim linked into the tools; the tools run as processes.'),
}
NOTES = r'''
## 4. What is left open, and corrections made to properties and machinery

Points where documentation and code leave more than one answer are accepted either way; they are named in the `note` of each
check. The more important ones:

* P04/P24: an empty `list_sep`, huge alignments and the like are outside of the documented language.
* P11/P12: with ties any of the equal paths may be kept; weights are integers so that sums of floats are exact.
* P15: a lattice line may show the scores of any connection of its node; scores of dead-end paths of a network are unspecified; node values of EOS in lattice-dump are unspecified.
* P16: the first statement demanded own values of all fields; docs/spec.md says that features are computed from the first entry only, so the statement was corrected. `LatticeCompactor` is never called by the analyzer.
* P17: the file format has no checksum; a damaged section can load as another model, and a damaged specification which still
  decodes may crash later in `initFeatures`. The statement is restricted to the loader.
* P22: violations below 0.001 are treated as ties; zero-weight fields are not part of the loss (docs/spec.md).
* P34: an empty corpus is accepted, additional columns of a corpus are ignored, failures of the debugging dump of weights are only warnings. With several sentences in a batch the result of training depends on the schedule even with one thread (the main thread updates weights while the next sentence is analysed), so identical results are demanded for batches of one only.
* P23: with a narrow beam without right check an annotation can be pruned; "obeyed" is required whenever some path does and the beam settings keep all constraints (right global beam is not covered), partial-training loss is not covered.
* P24: documentation mismatches noted and not changed: `feature to [ph]` in examples, `template row 0` for normalize, int fields in match conditions, two consecutive comments inside of a statement.
* P25: a comment at the very end of the last file may give a block or none; exit codes are not specified.
* P26: the history before the start of a sentence is padded with word 0; unknown-word candidates with known field values are looked up as unknown.
* P27: model path fix-ups relative to the configuration file never take effect in the code and are not covered; several output flags have a fixed order, so "one of the requested" is required.
* P32: comments with quotes and empty tokens may be read or refused.

False alarms which were corrected during the work (never listed as findings): the controlled scheduler treated `yield` as a no-op
(endless polling); h_stream treated `#` inside of texts as comments; h_spec had a wrong float limit; h_lattice compared narrow beams
with ties across settings; P01 expected texts of 32766 characters to be accepted, which no lattice position can hold; P22 compared losses next to a tie; the reference of P09 used shadowed table entries.

Facts about the code which the references rely on: `u16` is a *signed* 16-bit typedef in this code base; `LatticePosition` is
one of them; boundaries are character index + 2; rows named by `unk` are templates and not words.

Candidates for defects which were seen by reading and not pursued (no check reports them): copying details of unused
helpers (`MappedFileFragment` move, `StringListIterator::hasNext`, `FlatRep::swap`); `LatticeCompactor`.
'''
