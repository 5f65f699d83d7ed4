"""Writes /verif/properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mechanism,
                          "observe_at": observe, "hook_needed": hook}})
D, J, T = "segeval/data/__init__.py", "segeval/data/jsonutils.py", "segeval/data/tsv.py"
ML = "segeval/ml/__init__.py"

p("C01", "Saved datasets read back identical",
  "Whenever an export to JSON returns normally, importing that file afterwards yields an equal dataset: the same items, coders, segment masses (as tuples, in order) and extra properties, for any labels and sizes. This holds for every history of exports and imports over the same or different paths (overwriting, directory targets, changing a loaded dataset and loading again, other threads working on other files) and however the operating system splits reads and writes.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "every sequence of export/import/mutate operations by 1-3 interleaved caller threads, every legal splitting of the transfers, every dataset with string labels",
  "The tests write one dataset once to a fresh path and compare text; they never overwrite, never reload after a change, never see a short transfer and never have a second caller.",
  [J, D], [{"name": "json dump through a utf-8 file opened for truncating write", "where": J + ":__write_json__"}, {"name": "fresh Dataset per import, masses converted to tuples", "where": J + ":input_linear_mass_json"}],
  ["return of output_linear_mass_json", "value of input_linear_mass_json"],
  [{"name": "file contents", "meaning": "durable form of a dataset", "where": "the path given by the caller"}])

p("C02", "Failed or interrupted saves never pass for good data",
  "An export that could not hand all of its data to the operating system (disk full, write or close error, data that cannot be serialised) raises instead of returning. After any such failure, or a crash of the process at any point of the export, importing the file either raises or yields exactly a dataset that was passed to an export of that path - never a partial or mixed one; a file cut short at any byte or with a zero-filled block is rejected with the library's data I/O error.",
  ["crash_points", "fault_sequences", "inputs"],
  "every byte position at which the export fails or the process dies, every kind of write fault, every truncation point and zero-filled range of a stored file, every dataset",
  "No test makes a write fail or stops one half way; four fixed malformed files are all the tests import.",
  [J], [{"name": "errors from write, flush and close propagate; the closing brace comes last, so a torn prefix is not a document", "where": J + ":__write_json__"}, {"name": "parse errors become DataIOError", "where": J + ":input_linear_mass_json"}],
  ["exception of output_linear_mass_json", "value or exception of input_linear_mass_json after the fault"],
  [{"name": "file contents", "meaning": "what a later process can read after the crash", "where": "the path given by the caller"}])

p("C03", "Imports return the whole input or raise",
  "Importing a mass JSON file, a mass or position TSV file (any delimiter) or a folder tree returns exactly the data stored there or raises; a read error, an unopenable file, a file that vanishes or a directory that cannot be listed at any moment of the import never yields a dataset with something missing. Reads that merely return few bytes at a time do not change the result, and a failed import does not affect a later one. JSON that declares another or no segmentation type, or holds no items, and TSV cells that are no whole numbers are refused.",
  ["fault_sequences", "inputs", "histories"],
  "every position and kind of read, open or listing fault during an import, every splitting of the reads, every well-formed or flawed input file or tree, followed by any further imports",
  "The tests import four fixed healthy files; no read, open or listing operation ever fails or returns short.",
  [J, T, D], [{"name": "exceptions from the reader propagate or are wrapped", "where": J + ":input_linear_mass_json, " + T + ":input_linear_mass_tsv"}, {"name": "recursive load without swallowing errors", "where": D + ":load_nested_folders_dict"}],
  ["value or exception of input_linear_mass_json, input_linear_mass_tsv, input_linear_positions_tsv, load_nested_folders_dict"])

p("C04", "Import and export release every file they open",
  "When an import or export call has returned or raised - for whatever reason: success, malformed content, unserialisable data, or an I/O error in any open, read, write, flush or close - no file opened by that call is still open. Importing or loading any number of files in one process therefore never runs out of file descriptors.",
  ["fault_sequences", "histories", "inputs"],
  "every import/export call with every content, every I/O fault at any point of it, and any number of such calls in one process",
  "Tests never look at open handles; the interpreter may hide a leak by collecting the file object early, and only long histories exhaust the descriptor table.",
  [J, T, D], [{"name": "with-statement / close in finally", "where": T + ":input_linear_mass_tsv, " + J + ":__write_json__, " + J + ":input_linear_mass_json"}],
  ["the process's open file table after each call"])

p("C05", "Folder loading is complete and order-independent",
  "Loading a folder tree yields the union of every file in it whose extension matches the requested type (in any letter case), at any depth, each item labelled with its directory path, comma-separated, in front of its own label, and nothing else. The result is the same for every order in which the file system lists entries; when two files provide the same coder for the same item the load raises rather than choosing one.",
  ["inputs", "schedules", "histories"],
  "every directory tree and every enumeration order of each directory, with repeated and concurrent loads in one process",
  "One test loads one fixed tree in whatever order the local file system lists it.",
  [D], [{"name": "listdir, extension filter, recursion with a copied prefix, merge with duplicate detection", "where": D + ":load_nested_folders_dict, Dataset.__iadd__"}],
  ["value or exception of load_nested_folders_dict"])

p("C06", "Merging and copying never lose, overwrite or mix codings",
  "For every history of building, copying, adding (+) and in-place adding (+=) datasets, each dataset holds exactly the codings that history put into it: `+` and copying change neither operand - even if they fail or are interrupted part-way - and later changes to a copy, a sum's left operand or a merged-into dataset's items never show up in another dataset. Adding a coder already present for an item raises the library's data I/O error and never overwrites or removes an existing coding.",
  ["histories", "crash_points", "schedules"],
  "every sequence of dataset operations over a shared pool by 1-3 threads that share right-hand operands, with an interruption at any point",
  "Six two-step examples; no chains, no aliasing probes, no interruption.",
  [D], [{"name": "deep copy in __add__/copy, fresh inner dict per item, duplicate check before assignment", "where": D + ":Dataset"}],
  ["items, coders and masses of every dataset in the pool after each step"],
  [{"name": "item -> coder -> masses", "meaning": "the codings", "where": "Dataset"}])

p("C07", "A dataset always knows its coders and keeps its format",
  "However a dataset came to be - constructed, imported from JSON or TSV, loaded from folders, merged, copied, pickled to another process and back, or filled item by item - its reported coders are exactly those with codings in it, and copies and pickles keep its properties, boundary format and boundary types. Agreement coefficients computed on it equal those computed on an equal dataset built in memory.",
  ["histories", "inputs"],
  "every sequence of construction, import, merge, copy, pickle and assignment steps that leads to a dataset",
  "Tests compute agreement only on in-memory samples and check reported coders for constructed datasets only.",
  [D, J, T, "segeval/agreement/__init__.py"], [{"name": "coder set of a dataset; get_coders", "where": D + ":Dataset.coders, get_coders"}],
  ["Dataset.coders, .properties, .boundary_format, .boundary_types", "value of the agreement functions"])

p("C08", "A confusion matrix always answers from its current counts",
  "After any history of assignments, increments and queries, every cell of a confusion matrix reads back as last written (unwritten cells as 0), the set of classes is exactly the labels occurring in the matrix, and precision, recall and F-measure - per class, micro- or macro-averaged, with any beta, on one matrix or a dict of matrices - are those of the current counts. Asking for a metric never changes any later answer, matrices do not affect each other, and an interrupted query or write leaves the matrix usable with no other cell changed.",
  ["histories", "crash_points", "inputs"],
  "every interleaving of writes and queries over several matrices, with interruptions at any point",
  "Tests build a matrix once and query it; they do not interleave queries with further writes or ask for unknown classes and then for averages.",
  [ML], [{"name": "dirty flag and cached class set", "where": ML + ":ConfusionMatrix.classes, _InnerConfusionMatrix.__setitem__"}, {"name": "micro/macro averaging over classes", "where": ML + ":__value_micro_macro__"}],
  ["matrix[p][a], classes(), precision, recall, fmeasure"],
  [{"name": "__classes__/__dirty_classes__", "meaning": "cached class labels and whether they are stale", "where": ML}])

p("C09", "Concurrent queries of a shared confusion matrix are safe",
  "When several threads query the same confusion matrix (or dict of matrices) for classes, precision, recall or F-measure and no thread writes to it, every query returns the same result as it would alone, without raising, under every interleaving - including the first queries after the matrix was filled, queries for classes it does not contain, and queries running while another one is interrupted.",
  ["schedules", "crash_points"],
  "every interleaving of 2-4 querying threads at the granularity of single source lines or bytecodes, every matrix, any query aborted anywhere",
  "The tests are single-threaded.",
  [ML], [{"name": "class set computed lazily on first query", "where": ML + ":ConfusionMatrix.classes"}, {"name": "cells read by the averages", "where": ML + ":__precision__, __recall__"}],
  ["values of classes, precision, recall, fmeasure in each thread"],
  [{"name": "lazily filled class cache and default cells", "meaning": "hidden writes behind a query", "where": ML}])

p("C10", "Boundary-edit metrics keep their defined value under any interleaving",
  "Boundary edit distance, boundary statistics, boundary similarity, segmentation similarity and the boundary confusion matrix return the value their definition gives for the arguments of that very call - segmentations, boundary format, transposition span, weights, one-minus and parts options - or raise the library's error for unequal lengths or unknown formats. It makes no difference which calls ran before, which run concurrently in other threads on the same objects, which were aborted, or whether a weight function re-enters the library.",
  ["schedules", "histories", "inputs", "crash_points"],
  "every interleaving of 1-3 threads issuing any sequence of calls with any segmentations (one or several boundary types, all four formats) and options",
  "Tests evaluate a fixed list of inputs once each, sequentially, mostly with default options; nothing shares state, is aborted or runs concurrently.",
  ["segeval/similarity/__init__.py", "segeval/similarity/boundary.py", "segeval/similarity/segmentation.py", "segeval/similarity/weight.py", "segeval/similarity/distance/multipleboundary.py", "segeval/similarity/distance/__init__.py", "segeval/util/__init__.py", "segeval/format.py"],
  [{"name": "all working state local to the call; defaults copied per call", "where": "segeval/util/__init__.py:__fnc_metric__, segeval/similarity/__init__.py:__boundary_statistics__"}, {"name": "greedy transposition search over per-call option sets", "where": "segeval/similarity/distance/multipleboundary.py"}],
  ["return value or exception of each call"])

p("C11", "Window metrics keep their defined value under any interleaving",
  "Pk, WindowDiff (with and without the Lamprier et al. correction) and the automatic window size return the value their published definition gives for the arguments of that very call - segmentations, boundary format, window size, rounding function, one-minus and parts options - or raise the library's error for unequal lengths or unknown formats. It makes no difference which calls ran before, which run concurrently in other threads on the same objects, or which were aborted.",
  ["schedules", "histories", "inputs", "crash_points"],
  "every interleaving of 1-3 threads issuing any sequence of calls with any segmentations, formats, window sizes and options",
  "Tests evaluate a fixed list of inputs sequentially; options are rarely combined and nothing is concurrent or aborted.",
  ["segeval/window/__init__.py", "segeval/window/pk.py", "segeval/window/windowdiff.py", "segeval/util/__init__.py", "segeval/format.py"],
  [{"name": "window slides over per-call position tuples; defaults copied per call", "where": "segeval/window/pk.py:__pk__, segeval/window/windowdiff.py:__window_diff__, segeval/window/__init__.py:__compute_window_size__"}],
  ["return value or exception of each call"])

p("C12", "Agreement coefficients keep their defined value under any interleaving",
  "Actual agreement, Fleiss' pi, Fleiss' kappa and annotator bias equal their definition over all coder pairs and items of the dataset passed in, with the comparison function and options of that very call, for any number of coders and items and any insertion order of them; unequal coder counts per item are rejected by pi and kappa. It makes no difference which calls ran before or were aborted, or which run concurrently in other threads on the same datasets.",
  ["schedules", "histories", "inputs", "crash_points"],
  "every interleaving of 1-3 threads computing any coefficients over shared datasets (all formats, several boundary types), each coefficient for any dataset and order",
  "Tests check four fixed datasets sequentially.",
  ["segeval/agreement/__init__.py", "segeval/agreement/pi.py", "segeval/agreement/kappa.py", "segeval/agreement/bias.py", D],
  [{"name": "accumulators local to the call", "where": "segeval/agreement/__init__.py:__actual_agreement_linear__"}],
  ["return value of actual_agreement_linear, fleiss_pi_linear, fleiss_kappa_linear, artstein_poesio_bias_linear"])

p("C13", "Dataset comparisons cover every coder pair exactly once",
  "Applying a metric to one dataset yields one entry per item and unordered coder pair (both directions for permuted comparisons), and to two datasets one entry per shared item and coder combination, keyed 'item,coder,coder', each equal to the metric of those two segmentations in that order; nothing is missing, extra or taken from another item, dataset or call. This holds for any interleaving of such comparisons over shared datasets, after any aborted ones, and the summary (mean, deviation, variance, standard error, count) is that of exactly those values.",
  ["schedules", "histories", "inputs", "crash_points"],
  "every dataset or pair of datasets, every metric and option, every interleaving of 1-3 threads comparing shared datasets, with callbacks that fail and calls that are interrupted",
  "Tests check counts or selected entries of fixed datasets, sequentially.",
  ["segeval/compute.py", "segeval/util/__init__.py", "segeval/util/math.py"],
  [{"name": "per-call result dict, coder combinations, key built from item and coders", "where": "segeval/compute.py:compute_pairwise_values"}],
  ["dict returned by the metric functions for datasets", "value of summarize"])

p("C14", "Calls leave arguments and process state untouched",
  "No metric, conversion, agreement, summary or import/export call changes the segmentations, datasets, matrices-as-input, keyword containers or weight tuples passed to it, the bundled sample datasets, or ambient process state (decimal context, random state, working directory, environment, recursion limit, import path, warning filters). This holds also when the call raises, when a user-supplied function fails, or when it is interrupted at an arbitrary point.",
  ["crash_points", "histories", "schedules"],
  "every public call with any arguments, run to completion, failing, or interrupted at any point, alone or interleaved with others on the same objects",
  "Tests do not compare arguments or process state before and after, and never abort a call.",
  ["segeval/util/__init__.py", "segeval/agreement/__init__.py", "segeval/compute.py", "segeval/similarity/__init__.py", "segeval/window/__init__.py", D, J],
  [{"name": "keyword dicts and boundary sets copied before modification", "where": "segeval/util/__init__.py:__fnc_metric__, segeval/agreement/__init__.py, segeval/similarity/distance/multipleboundary.py:__optional_set_edits__"}],
  ["caller's objects and process state before and after each call"])

p("C15", "Aborted calls surface and leave no residue",
  "When a user-supplied function (weight, rounding or comparison function) raises, or the caller is interrupted (KeyboardInterrupt, MemoryError) at any point of any metric, agreement, dataset-comparison or confusion-matrix call, that exception reaches the caller and is never turned into a value. Every later call, with the same or other arguments and in this or other threads, completes and returns exactly what it would have in a fresh process.",
  ["crash_points", "fault_sequences", "histories"],
  "every abort point of every call, any number of aborts, followed by any calls",
  "No test aborts a call or supplies a failing callback.",
  ["segeval/util/__init__.py", "segeval/compute.py", "segeval/agreement/__init__.py", "segeval/similarity/__init__.py", "segeval/window/__init__.py", ML],
  [{"name": "no module-level working state; no exception handling around callbacks", "where": "all metric modules"}],
  ["exception of the aborted call", "values of the calls after it"])

p("C16", "Public names resolve in any order, also after failed loads",
  "In a fresh process every public name of the package can be the first one accessed, and any sequence of first accesses - as attribute or from-import, from one thread or several, with or without private submodules imported before - resolves each name to the same object its defining module holds, exactly one per process. If loading is interrupted or a source file cannot be read at some point, that access raises and a later access succeeds with the same result.",
  ["schedules", "histories", "fault_sequences"],
  "every first-access order of the public names and public submodules, every interleaving of 1-3 threads doing so, every load interrupted at any point",
  "The test suite runs in one process in which one import order has already happened.",
  ["segeval/__init__.py", "segeval/util/__init__.py", "segeval/compute.py", "segeval/data/__init__.py"],
  [{"name": "module subclass with lazy __getattr__ and origin table", "where": "segeval/__init__.py"}],
  ["getattr(segeval, name) / from segeval import name in a fresh process"],
  [{"name": "import state", "meaning": "which submodules are loaded, loading or failed", "where": "sys.modules"}])

pure = "The statement is about one call as a function of its arguments: no schedule, clock, I/O, fault or shared state can make it true or false."
p("N01", "Edit distance and similarities are symmetric",
  "Swapping the two segmentations leaves boundary similarity, segmentation similarity and the number of edits of each kind unchanged, and swaps the side of each addition.",
  ["inputs"], "every pair of segmentations of equal length, every format and option", "Tests swap a few fixed pairs. " + pure,
  ["segeval/similarity/distance/multipleboundary.py", "segeval/similarity/boundary.py"], [{"name": "edit search", "where": "segeval/similarity/distance/multipleboundary.py"}], ["metric values"])
p("N02", "Scores are bounded and identity scores perfectly",
  "Boundary similarity, segmentation similarity, Pk and WindowDiff lie in [0, 1]; comparing a segmentation with itself gives 1 for the similarities and 0 for the penalties.",
  ["inputs"], "every pair of segmentations of equal length, every window size", "Fixed examples. " + pure,
  ["segeval/similarity/boundary.py", "segeval/similarity/segmentation.py", "segeval/window/pk.py", "segeval/window/windowdiff.py"], [{"name": "normalisation", "where": "the metric functions"}], ["metric values"])
p("N03", "Format conversions are mutually inverse",
  "Converting masses to positions (or boundary strings, or NLTK strings) and back yields the original masses.",
  ["inputs"], "every sequence of positive masses", "Fixed examples. " + pure,
  ["segeval/format.py"], [{"name": "conversion functions", "where": "segeval/format.py"}], ["converted values"])
p("N04", "One segmentation scores alike in every format",
  "A metric gives the same value for the same two segmentations in mass, position, boundary-set and NLTK format.",
  ["inputs"], "every pair of single-type segmentations", "One or two fixed examples per format. " + pure,
  ["segeval/format.py", "segeval/similarity/__init__.py", "segeval/window/pk.py", "segeval/window/windowdiff.py"], [{"name": "conversion at metric entry", "where": "the metric functions"}], ["metric values"])
p("N05", "Summary statistics are mutually consistent",
  "For any non-empty list of numbers the standard deviation squared is the variance, the standard error is the deviation over the root of the count, and the mean lies between the extremes.",
  ["inputs"], "every list of numbers", "Fixed examples. " + pure,
  ["segeval/util/math.py"], [{"name": "mean, var, std, stderr", "where": "segeval/util/math.py"}], ["summary values"])
p("N06", "Edits account for every boundary difference",
  "Matches plus additions, substitutions and transpositions account for every boundary of both segmentations exactly once, and no cheaper pairing of substituted types exists at any position.",
  ["inputs"], "every pair of boundary strings", "Fixed examples. " + pure,
  ["segeval/similarity/distance/multipleboundary.py"], [{"name": "edit search", "where": "segeval/similarity/distance/multipleboundary.py"}], ["boundary_edit_distance value"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
