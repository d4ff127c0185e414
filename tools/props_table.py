LN = ("Seeded search, not exhaustive: holds on every explored schedule and fault sequence. Real code on a real "
      "file system; upstream services, clock and entropy are simulated. Crash = killed process (kernel keeps what "
      "was written). ")

P("D01", "A dataset cache entry is complete or absent, whatever was interrupted",
  "After any sequence of loads, refreshes, downloads, purges and collections in which operations were killed, "
  "interrupted or hit disk or network errors at arbitrary steps, a cached-only load of a dataset returns exactly what "
  "its provider delivers or reports it as not cached. A load that may download then succeeds with exactly that data "
  "without manual repair. An operation that was not itself disturbed never fails because of earlier ones.",
  ["crash_points", "fault_sequences", "histories"],
  "every mutating step of every operation as crash or failure point, every history of operations, every provider family",
  "The tests load from intact caches or delete one file by hand; none stops a store half-way, so the order of writes, "
  "removals and the completeness marker is unconstrained.",
  [DL + "services/service.py", DL + "storage/files.py", DL + "cache.py", DL + "manifest.py"],
  [("manifest written last marks completeness", DL + "services/service.py _download_and_store"),
   ("purge of unreadable entries", DL + "services/service.py _load_processed_or_purge")],
  note=LN, state=[dict(name="manifest", meaning="presence = entry complete", where=DL + "cache.py is_cached")])

P("D02", "Concurrent loads of one dataset never disturb each other",
  "When several processes load, download or refresh the same dataset in one cache at the same time, at most one of them "
  "fetches or stores it at any moment, and without a refresh it is fetched once. Every process that returns a dataset returns exactly the provider's data, a process that cannot get "
  "the entry is told it is busy, and afterwards the entry is cached and intact.",
  ["schedules", "crash_points"],
  "every interleaving of 2-4 processes at file-operation granularity, stalls and clock jumps of any process, one crash",
  "The tests call the functions in one process, sequentially; no interleaving of two loaders is ever executed.",
  [DL + "cache.py", DL + "services/service.py"],
  [("per-entry lock", DL + "cache.py cache_lock"), ("re-check under the lock", DL + "services/service.py _download_and_store")],
  note=LN)

P("D03", "A dead or failed loader never blocks a dataset",
  "If processes holding or waiting for a cache entry are killed or fail at any step, a later load or refresh by a live "
  "process succeeds without manual cleanup, however little or much time has passed.",
  ["crash_points", "fault_sequences", "schedules"],
  "kill, interrupt or error at every step of 1-3 contending processes, repeated over up to three rounds",
  "The tests check the lock within one living process; no holder ever dies.",
  [DL + "cache.py"], [("lock released with its holder", DL + "cache.py cache_lock")], note=LN)

P("D04", "The cache index lists exactly the cached datasets",
  "After every completed operation (load, refresh, purge, purge of a dataset, keep-latest collection, index rebuild), "
  "listing the cache shows exactly the entries that are cached, once each, newest first, with their identity and size; purge and collection "
  "delete exactly what they report and nothing else. After a crash or the loss of the index, rebuilding restores this.",
  ["histories", "crash_points", "schedules"],
  "histories of 3-9 operations over up to five variants, concurrent loads, clock jumps between operations, crashes and errors",
  "The tests check single operations on hand-written index rows; no long history, clock jump or crash relates the index to the files.",
  [DL + "cache.py", "src/modssc/cli/datasets.py"],
  [("sqlite index", DL + "cache.py index_upsert/index_list/rebuild_index"), ("collection", DL + "cache.py gc_keep_latest")], note=LN)

P("D05", "A warm or shared dataset cache never changes what a request returns",
  "A request (dataset reference plus options) served from a cache that already holds any other requests returns exactly what the same "
  "request returns from an empty cache: no option, version, seed or configuration is served another one's data, and arrays keep "
  "values, dtype and order. The same holds after the whole cache directory was moved.",
  ["histories", "inputs", "configurations"],
  "sequences of requests over all provider families and random option combinations, in several processes, warm, refreshed or memory-mapped",
  "Tests check fingerprints of a few fixed option sets and round trips of a few arrays; aliasing needs two specific requests in one cache.",
  [DL + "providers", DL + "types.py", DL + "storage/files.py", DL + "services/service.py"],
  [("identity fingerprint", DL + "types.py DatasetIdentity.fingerprint"), ("path rebasing of moved caches", DL + "services/service.py")], note=LN)

P("D06", "A batch download accounts for every dataset and survives failures",
  "A batch download reports every selected dataset exactly once as downloaded, skipped, lacking an extra (named) or failed; "
  "a failure of one never affects another, and what it reports as downloaded or skipped is afterwards available from the cache with exactly the "
  "provider's data. Repeating it after failures or a crash completes the rest.",
  ["fault_sequences", "configurations", "crash_points"],
  "random catalog selections, missing extras, previously cached datasets, network and disk errors or a crash at any step, repeated",
  "Tests stub the download function itself; no real failure inside a download reaches the batch accounting.",
  [DL + "services/service.py", DL + "errors.py", DL + "types.py"],
  [("per-dataset error isolation", DL + "services/service.py download_all_datasets")], note=LN)

PR = "src/modssc/preprocess/"

P("P01", "The preprocess cache is invisible, whatever happened to it",
  "A preprocessing request run with the step cache returns exactly what it returns without it (data, artifacts, dtypes, metadata, "
  "fingerprint or error), after any history of earlier runs that were killed, interrupted or hit disk errors, and after cache files "
  "were lost or truncated. No manual repair is ever needed and purging unused artifacts changes nothing but memory.",
  ["crash_points", "fault_sequences", "histories"],
  "every mutating step of a run as crash or failure point, loss or truncation of any cache file, all offline steps and modalities",
  "Tests compare one warm run with one cold run of a few plans; none kills a run, damages an entry or lets train and test outputs survive separately.",
  [PR + "cache.py", PR + "services/pipeline.py"],
  [("per-step save and load", PR + "cache.py CacheManager"), ("cache hit/miss and one generator for both splits", PR + "services/pipeline.py preprocess")],
  note=LN)

P("P02", "One preprocess cache never serves one request another request's data",
  "Requests that differ in a step parameter, the steps or their order, the seed, the fit subset, the dataset or the preprocessing applied "
  "before may share one cache: each returns exactly its own uncached result. Two requests with one preprocess fingerprint have "
  "the same result, and a request never changes its input dataset.",
  ["histories", "inputs", "configurations"],
  "sequences of 2-6 neighbouring requests, including chained preprocessing, over one cache for all offline steps and modalities",
  "Tests check that a few fingerprints differ; a collision needs the right pair of requests, in one cache, in the right order.",
  [PR + "services/pipeline.py", PR + "catalog.py", PR + "fingerprint.py"],
  [("step fingerprint with provenance", PR + "services/pipeline.py"), ("artifacts a step reads", PR + "catalog.py consumes")], note=LN)

P("P03", "Concurrent preprocessing over one cache gives every process its own result",
  "When several processes preprocess the same or related requests over one cache at the same time, each that is not killed returns exactly "
  "its uncached result, never an error or another process's half-written value; later runs do too.",
  ["schedules", "crash_points"],
  "every interleaving of 2-4 processes at file-operation granularity, stalls, one crash, cold, warm or partly lost cache",
  "No test runs two preprocessing processes against one cache.",
  [PR + "cache.py", "src/modssc/utils/io.py"],
  [("whole-file replacement", PR + "cache.py, utils/io.py atomic_write_text")], note=LN)

GR = "src/modssc/graph/"

P("P04", "Preprocessing learns from the fit rows only and treats every row alike",
  "What a preprocessing step learns (scales, means, vocabularies, components, categories) comes from the rows of the fit subset and no others: "
  "replacing every other row leaves the processed fit rows as they were. A test row is processed as the same row in the training set would be, whatever "
  "surrounds it, and a class has one number and one one-hot column in both splits, also when a split lacks it or has it alone; with any cache, after any killed run.",
  ["inputs", "histories", "faults"],
  "random plans over tabular, text, vision and audio data, fit subsets, copies of training rows as test rows, classes missing from one split, one cache with killed runs",
  "Tests fit and transform one small array; a statistic over too many rows or classes numbered per split gives plausible values.",
  ["src/modssc/preprocess/services/pipeline.py", "src/modssc/preprocess/steps"],
  [("fit subset", "src/modssc/preprocess/services/pipeline.py preprocess"), ("label numbers", "src/modssc/preprocess/steps/labels/encode.py")], note=LN)
P("G01", "The graph and view caches are invisible, whatever happened to them",
  "A graph or graph-view request run with its cache returns exactly what it returns without it (nodes, edges, weights, views, metadata or "
  "error), after any history of earlier builds that were killed, interrupted, resumed, purged or hit disk errors, with any shard size, and after cache or "
  "work files were lost or truncated. No manual repair is needed, and a complete entry is reused, not built again.",
  ["crash_points", "fault_sequences", "histories"],
  "every mutating step of a build as crash or failure point, loss or truncation of any cache or work file, all installed schemes, backends and views",
  "Tests build once and load once, or resume from intact hand-written chunks; none kills a build or damages what it left.",
  [GR + "cache.py", GR + "construction/services/service.py", GR + "construction/backends/numpy_backend.py", GR + "featurization/api.py"],
  [("manifest written last", GR + "cache.py GraphCache.save"), ("resumable chunks", GR + "construction/backends/numpy_backend.py")], note=LN)

P("G02", "Concurrent graph and view builds over one cache give every process its own result",
  "When several processes build the same or related graphs or views over one cache at the same time, with the same or different shard sizes, each that is "
  "not killed returns exactly its uncached result, never an error or a mixture; later requests do too.",
  ["schedules", "crash_points"],
  "every interleaving of 2-4 processes at file-operation granularity, stalls, one crash, cold, warm or partly lost cache",
  "No test runs two graph builds against one cache.",
  [GR + "cache.py", GR + "construction/services/service.py", GR + "construction/backends/numpy_backend.py"],
  [("whole-file replacement", GR + "cache.py"), ("removal of the work directory", GR + "cache.py _clear_entry_dir")], note=LN)

P("G03", "One graph cache never serves one request another request's graph or views",
  "Graph, view and bench graph requests that differ in a spec field, the seed, the features, the preprocessing or the splits they cover may "
  "share one cache: each returns exactly its own uncached result. Equal fingerprints mean equal results, and a request never changes its inputs.",
  ["histories", "inputs", "configurations"],
  "sequences of 3-8 neighbouring requests over one cache, all installed schemes, backends and views, with and without dataset fingerprints",
  "Tests check that a few fingerprints differ; a collision needs the right pair of requests in one cache.",
  [GR + "construction/services/service.py", GR + "featurization/api.py", GR + "specs.py", "bench/orchestrators/graph.py"],
  [("graph fingerprint", GR + "construction/services/service.py _graph_fingerprint"), ("views fingerprint", GR + "featurization/api.py _views_fingerprint")], note=LN)

SA = "src/modssc/sampling/"
P("S01", "A stored split is one whole split or none",
  "After any sequence of saves (with and without overwrite) and loads of splits in which saves were killed, interrupted or hit disk errors, "
  "or ran at the same time, loading a split directory returns exactly one split that was saved there, metadata and indices from the same save, "
  "or fails because none was completed. A save that reports success can be loaded exactly, a save without overwrite never replaces a stored "
  "split and is refused only when one is stored, and no interrupted save blocks a later one.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "every mutating step of a save as crash or failure point, histories of 2-7 saves and loads of up to three splits, 2-3 concurrent savers and loaders",
  "Tests save into a fresh directory and load it back; the two files of a split are never torn apart.",
  [SA + "storage.py", SA + "services/service.py"],
  [("single commit point", SA + "storage.py save_split"), ("split cache", SA + "services/service.py")], note=LN)

P("S02", "Splits are reproducible, well-formed, and identified by their fingerprint",
  "A sampling request (data, plan, seed) gives the same split and fingerprint in every process, interpreter, at every time and after any other "
  "work. Train, validation and test never overlap, labeled and unlabeled partition the training set, official splits are respected as the "
  "policy says, the k folds of one seed partition the data, different requests never share a fingerprint, and the data is not modified.",
  ["histories", "inputs", "configurations"],
  "2-6 neighbouring requests over all split, labeling, imbalance and policy kinds, label types, graph masks and official tests; repeats with other clocks, "
  "random state, call styles, histories and string-hash seeds",
  "Tests check single plans in one process; independence of process, history and call style, and collisions between requests, need many related requests.",
  [SA + "api.py", SA + "services/service.py", SA + "splitters.py", SA + "labeling.py", SA + "imbalance.py", SA + "fingerprint.py"],
  [("seed derivation", SA + "fingerprint.py derive_seed"), ("split fingerprint", SA + "services/service.py")], note=LN)

P("B01", "Benchmark runs started together never touch each other's records",
  "Experiments started at the same time (same or different configuration, single, search or sweep) with one output directory each get a run "
  "directory of their own, containing exactly the record, configuration and reports of that experiment, as if it had run alone; no run is lost, "
  "mixed with another, or fails because of another. A finished run's directory is never changed by a later one, and every process "
  "reports the directory that holds its own record.",
  ["schedules", "crash_points"],
  "interleavings of 2-3 benchmark processes around their directory and report steps, equal and skewed clocks, stalls, one crash, after finished runs",
  "Tests run one benchmark at a time; two runs never meet in one second and one output directory.",
  ["bench/context.py", "bench/main.py", "bench/orchestrators/reporting.py"],
  [("claimed run directory", "bench/context.py"), ("run identity", "bench/main.py _sync_ctx_run_identity")], note=LN)

P("B02", "What a benchmark leaves on disk is whole and true, even when it is killed or fails",
  "After any history of benchmark runs that were killed, interrupted, or hit disk or memory errors at arbitrary steps, every record, configuration "
  "and aggregate found on disk parses and describes the run it belongs to: a record that says success carries exactly the results of an undisturbed run, "
  "and a failed run says so, with its error, and exits non-zero. The same experiment run again undisturbed succeeds with the same results without manual repair.",
  ["crash_points", "fault_sequences", "histories"],
  "every step of a run as crash or failure point, with emphasis on its own output; histories of up to five runs of one to three experiments sharing caches",
  "Tests call the reporting functions on healthy directories; none kills a benchmark or fails its writes.",
  ["bench/main.py", "bench/orchestrators/reporting.py", "bench/utils/io.py", "bench/context.py"],
  [("error record", "bench/main.py"), ("whole-file writes", "bench/utils/io.py")], note=LN)

P("B03", "A seed sweep runs every seed as if alone and its aggregate accounts for each",
  "Each member of a sweep has exactly the record and results of the same experiment run alone with that seed, whatever seeds ran before it and in whatever order. "
  "The aggregate lists every requested seed once, counts successes and failures as they happened, its statistics equal those recomputed from "
  "the successful members, and the exit code and fail_fast follow the failures, also when a member is killed by an error or cannot write its record.",
  ["fault_sequences", "configurations"],
  "sweeps of 2-4 seeds in any order with all, some or no failing members, by configuration or by an injected fault, with and without fail_fast",
  "Tests aggregate hand-written reports; members influencing each other or disagreeing with a lone run needs real sweeps.",
  ["bench/main.py", "bench/orchestrators/reporting.py"],
  [("per-seed runs", "bench/main.py"), ("aggregate", "bench/orchestrators/reporting.py")], note=LN)

P("B04", "A benchmark configuration and its seed determine the results",
  "Running the same configuration with the same seed gives the same record, splits, predictions and metrics whenever and wherever it runs: with cold or "
  "warm caches, after any other experiments in the same process, after killed runs, with any ambient random state, clock or string-hash seed, and with its "
  "mappings written in any order. This holds for every method of the toolkit.",
  ["histories", "configurations"],
  "one experiment over 47 methods and random preprocess, graph, augmentation, view, sampling, limit and search sections, with one or two disturbed repeats each",
  "Tests compare a method with itself in one process with fixed ambient state; unseeded randomness only shows when that state changes.",
  ["bench/main.py", "bench/context.py", "bench/orchestrators", "src/modssc/inductive/methods", "src/modssc/transductive/methods", "src/modssc/data_augmentation"],
  [("seed derivation per stage", "bench/context.py seed_for"), ("global seeding", "bench/main.py")], note=LN)

P("B05", "A hyper-parameter search reports what its trials really scored and picks the best",
  "Trials are numbered in order, drawn only from the space, determined by the space and the seed, and independent of each other, of how many follow and of the direction; "
  "the winner is the best successful trial in the asked direction (the first on ties). The final run uses exactly the winner's parameters: giving those parameters "
  "directly yields the same model and the same reported metrics; trials see the same configured limits as the final run.",
  ["histories", "configurations"],
  "grid and random searches over list, uniform, log and integer spaces, repeats, both directions, scores with ties and failing trials",
  "Tests use stub evaluators; a trial influenced by earlier ones or a winner that does not reproduce shows only in real searches.",
  ["bench/orchestrators/hpo.py", "src/modssc/hpo"],
  [("trial selection", "bench/orchestrators/hpo.py"), ("samplers", "src/modssc/hpo/samplers.py")], note=LN)

P("B06", "Hidden labels and evaluation settings never influence a model",
  "The labels of unlabeled and of test rows never influence what a method learns: permuting them after the split leaves the "
  "predictions of the fitted model and the validation metrics exactly as they were, for every method, preprocessing, graph, view, augmentation and search. Which "
  "splits and metrics are reported never changes the predictions or each other's values.",
  ["inputs", "configurations"],
  "one experiment over 47 methods and random input stages against its own repeat with hidden labels permuted or other evaluation settings",
  "Tests check shapes and metrics of given labels; a leak raises scores and breaks nothing.",
  ["bench/main.py", "bench/orchestrators/method_inductive.py", "bench/orchestrators/method_transductive.py", "src/modssc/inductive/methods", "src/modssc/transductive/methods"],
  [("label masking", "bench/orchestrators/method_transductive.py"), ("unlabeled features only", "bench/orchestrators/method_inductive.py")], note=LN)

P("V01", "Each feature view is exactly its definition, alone or in a chain, cached or not",
  "A view holds exactly the columns its definition says (all, the given ones, a seeded random fraction, or the exact complement of an earlier view) of the "
  "dataset as its own preprocessing makes it, with labels, edges, masks and metadata unchanged, whatever other views are generated beside it. Views and "
  "preprocessing may be chained in any order over one shared cache, by killed, failing, concurrent or other processes and interpreters: every result equals "
  "the uncached one, and no stage changes its input.",
  ["histories", "inputs", "configurations", "schedules", "crash_points"],
  "2-5 neighbouring chains of up to four stages over one cache, all column modes, nine kinds of data, one fault or two concurrent processes at a time",
  "Tests generate two views of one array once, without a cache; a view served another column set's cached result needs a chain of stages.",
  ["src/modssc/views/services/service.py", "src/modssc/views/plan.py", "src/modssc/preprocess/services/pipeline.py"],
  [("column resolution", "src/modssc/views/services/service.py _resolve_columns"), ("dataset fingerprint of a view", "src/modssc/preprocess/services/pipeline.py _dataset_fingerprint")], note=LN)

M = "src/modssc/inductive/methods"
TR = "src/modssc/transductive/methods"

P("M01", "A method object is a function of its specification, its data and its seed",
  "Fitting or predicting a second time gives what a fresh object would give: nothing an object, a classifier or the process did before - earlier fits on other "
  "data, an earlier fit of the same arrays since changed in place, an interrupted or failing fit, other objects in the same process, ambient random state - "
  "reaches the result. Fitting and predicting leave the caller's data and process-wide random state policies as they were, and a row's prediction does not "
  "depend on how the rows are grouped into calls unless the method is documented to use the batch.",
  ["histories", "inputs", "crash_points"],
  "47 methods and every classifier backend over random small problems, with one or two earlier operations, edits, cuts or neighbours before the judged fit; a second interpreter",
  "Tests fit an object once; a cache or attribute that survives a fit needs a history of fits.",
  [M, TR, "src/modssc/supervised"],
  [("per-fit state", M), ("classifier registry", "src/modssc/supervised/registry.py"), ("prepared graph cache", TR + "/gnn/common.py")], note=LN)

P("M02", "A transductive method uses only visible labels and only the graph it is given",
  "Labels outside the training and validation masks never influence scores or predictions, whatever they hold, for every method and diffusion function called "
  "directly. The computing backend (NumPy, torch, automatic) does not change the scores beyond rounding, and neither does the order in which edges are listed.",
  ["inputs", "configurations"],
  "random small graphs, label masks and hidden labels over every transductive method and label-propagation style function, NumPy, torch and automatic backends",
  "Tests check given graphs with all labels filled in; a leak only shows when hidden labels change.",
  [TR, "src/modssc/transductive"],
  [("label masking", TR), ("diffusion backends", TR + "/classic")], note=LN)

P("M03", "Predictions name the classes of the labels that were given",
  "Renaming the classes (gaps, negative numbers, strings, other integer types, other order) renames the predictions and changes nothing else; score columns "
  "stand for the sorted classes, the predicted class is that of the largest score, and probabilities are non-negative and sum to one. The order in which "
  "rows are asked for decides nothing about a row.",
  ["inputs", "configurations"],
  "every inductive method and classifier on random small problems under an order-preserving renaming of its classes",
  "Tests use labels 0..k-1, where a column index and a class look the same.",
  [M, "src/modssc/supervised", "src/modssc/evaluation"],
  [("classes of the columns", M), ("decision scores to probabilities", "src/modssc/inductive/methods/utils.py")], note=LN)

P("B07", "A method is given exactly the rows of its split",
  "What a method receives at fit is aligned row by row: the labeled rows, their labels, the unlabeled rows, their augmented versions, every extra view, "
  "the masks and the graph are those the split names, in its order; unlabeled rows come without their labels, and an inductive method gets no validation or test row. "
  "Cutting and joining graph inputs keeps every edge between kept nodes, with its weight, and no other.",
  ["inputs", "configurations"],
  "whole benchmark runs over random splits, methods, views, augmentations and limits; what the first fit receives is compared with the split, row for row, "
  "and random graph inputs are cut and joined against a node-by-node reference",
  "Tests check shapes on one split; misaligned rows or weights train without error and only cost accuracy.",
  ["bench/orchestrators/slicing.py", "bench/orchestrators/method_inductive.py", "bench/orchestrators/method_transductive.py", "src/modssc/inductive/methods/helpers"],
  [("rows per role", "bench/orchestrators/slicing.py"), ("inputs of inductive methods", "bench/orchestrators/method_inductive.py")], note=LN)
P("B08", "A valid experiment completes",
  "An experiment whose split and graph give the method what it documents it needs (every class among the labeled rows, unlabeled rows, connected nodes where "
  "required) and whose parameters are within their documented ranges ends successfully and reports every metric asked for on every split asked for, "
  "with any documented combination of method options, preprocessing, views, augmentation, graph, limits and search, "
  "alone or after other experiments in the same process and caches.",
  ["configurations", "inputs", "histories"],
  "whole benchmark runs over all methods with generated options in combination, after other runs; failures are excused only by a reason recomputed from the split and the graph",
  "Tests try each option near its default on one step of training; combinations that fail only on a second step, after another run or on another split go unseen.",
  ["bench", "src/modssc/inductive/methods", "src/modssc/transductive/methods", "src/modssc/supervised"],
  [("a run", "bench/main.py"), ("training loops", "src/modssc/inductive/methods"), ("graph methods", "src/modssc/transductive/methods")], note=LN)
P("A01", "An augmented row depends only on plan, seed, sample and epoch",
  "The augmented versions of a row depend only on the plan, the seed, the epoch, the sample id and the row itself, whatever other rows, order, process, "
  "ambient random state or interrupted run surround it, and the input is left as it was. "
  "Rows, seeds, epochs and the two strong views draw independently, and every operation makes the change it documents and no other.",
  ["inputs", "histories", "faults"],
  "random plans over every operation and container, re-executed in other subsets, orders and processes and after interrupted runs, against per-operation rules",
  "Tests augment a few rows once; a draw that depends on the batch or repeats across rows looks like any other draw.",
  ["bench/orchestrators/augmentation.py", "src/modssc/data_augmentation"],
  [("seed of a row", "src/modssc/data_augmentation"), ("weak and strong views", "bench/orchestrators/augmentation.py")], note=LN)
P("E01", "Reported metrics are those of the fitted model on the rows they name",
  "Every metric a benchmark reports equals the metric recomputed independently from the model it fitted, the rows of the split it names and "
  "the true labels of those rows, also when the labeled rows lack some classes, and exactly the splits and metrics that were asked for are reported.",
  ["inputs", "configurations"],
  "whole benchmark runs over every method, random splits, limits, sparse labelings and all metrics, against an independent scorer",
  "Tests check metric functions on hand-made scores; the wrong rows or the wrong columns give a plausible number.",
  ["bench/orchestrators/evaluation.py", "src/modssc/evaluation"],
  [("rows per split", "bench/orchestrators/evaluation.py"), ("metric definitions", "src/modssc/evaluation")], note=LN)
P("C01", "A command says what it did and does what the library does",
  "A modssc command prints what the library returns for the same dataset, plan, specification and seed, and exits with 0 exactly if it did what was asked: "
  "what it reports as downloaded, created, built or purged is there (or gone) afterwards, under the name the user gave, and what it refuses leaves everything as it was. "
  "A command killed or hit by an error never harms what other commands stored, and every listed thing can be shown.",
  ["histories", "inputs", "crash_points", "fault_sequences"],
  "sequences of 2-5 commands over all groups with random options, log levels and cache directories, some killed or hit by disk or network errors, or without an extra",
  "Tests call each command once with mocked or intact libraries; options that are dropped, reports that do not match the files and partial failures stay unseen.",
  ["src/modssc/cli"],
  [("commands", "src/modssc/cli/datasets.py, sampling.py, preprocess.py, graph.py, evaluation.py"), ("exit codes", "src/modssc/cli/_utils.py exit_with_error")], note=LN)
