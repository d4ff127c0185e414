"""Writes the per-property part of DESIGN.md (run by hand): python3 tools/design.py"""

import importlib
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
from vsim import scen  # noqa: E402

# property: (oracle, bounds and what is left out)
O = {
    "D01": ("a reference model of the cache (per variant: absent, present, or either after a fault) and the provider's own data, compared by canonical digest",
            "up to 4 operations, 2 variants, 2 faults an operation"),
    "D02": ("event log: no two fetches or stores of one entry overlap in time, one fetch without refresh; every returned dataset equals the provider's data",
            "2-4 processes, 8 preemptions typically (up to 25), stalls, clock jumps of minutes to days"),
    "D03": ("progress: after the faults stop, each of three fresh processes gets the provider's data within its step bound; a wait for a dead holder is a hang found by the "
            "simulator's deadlock detection, not by a timeout", "1-3 contenders, up to three rounds"),
    "D04": ("a set model of the index (fingerprint, URI, creation order) stepped with every operation; files, index rows and reports must agree with it", "3-9 operations, 5 variants"),
    "D05": ("the same request answered from an empty cache, and for unfiltered requests the upstream data itself", "18 references x options, sequences of 2-6, 1-3 processes"),
    "D06": ("the selection recomputed from the catalog; every key in exactly one list of the report; lists against what the cache then holds", "catalog subsets; extras removed by blocking their import"),
    "P01": ("the same request without cache in a fresh process, canonical digests of arrays, artifacts, dtypes, metadata, fingerprint or error",
            "plans of 1-6 steps over all non-download steps and 7 kinds of data; 2-5 runs; one fault a run; files lost, emptied, truncated"),
    "P02": ("uncached result of each request; a table fingerprint -> result", "2-6 neighbouring requests; neighbours differ in one respect (parameter, order, seed, fit rows, data, earlier plan)"),
    "P03": ("uncached result of each process' request", "2-4 processes, up to 25 preemptions at file-operation granularity"),
    "P04": ("metamorphic: the same run with all other rows replaced (fit rows must be bitwise what they were), and with a test set of copied training rows (must equal their "
            "originals up to rounding); class numbers recomputed from the raw labels",
            "graph steps and the stub encoder (which numbers rows) are left out of the comparison of copies, as are plans that round and then rescale"),
    "G01": ("the same request without cache; event log for 'a complete entry is reused'", "knn, epsilon, anchor graphs and attribute, diffusion, structural views up to 40 nodes; faiss is not installed"),
    "G02": ("uncached result of each process' request", "2-4 processes, shards, one crash"),
    "G03": ("uncached result of each; a table fingerprint -> result", "3-8 neighbouring requests, including the benchmark's own graph stage"),
    "S01": ("a split model: a directory holds nothing, or exactly one of the splits some save was given", "2-7 operations, 1-3 splits, up to 3 processes"),
    "S02": ("equality between repetitions in other processes, interpreters and call styles; split invariants recomputed from the data; folds union", "2-6 neighbouring requests; all plan fields"),
    "B01": ("every run directory, report and aggregate equals what the same experiment leaves when it runs alone", "2-3 experiments; points restricted to directory and report steps"),
    "B02": ("a reader of the output tree: every report parses, says what happened (success only if it ran, failure with its error), no file half-written, an undisturbed run succeeds",
            "1-3 experiments, one fault a run; the oracle knows which files a still-full disk excuses"),
    "B03": ("each member compared with the single run of its seed; counts, means and deviations of the aggregate recomputed", "2-4 seeds"),
    "B04": ("record and predictions of the first, lone run", "all 47 methods; the digest of the configuration is compared too; dated directories are left out"),
    "B05": ("trial scores recomputed from the direct run of the winner, argmax/argmin over the recorded trials, prefix property of random search", "grids up to 4 values, up to 6 trials, 3 repeats"),
    "B06": ("metamorphic: hidden labels permuted after the split", "class counts are kept by the permutation; test metrics, which may change, are not compared"),
    "V01": ("definition of each view recomputed from the dataset as preprocessed (columns all/given/seeded fraction/complement); uncached result", "chains of up to 4 stages"),
    "M01": ("a fresh process that performs only that fit and that question", "all inductive, transductive methods and supervised classifiers on 12-60 rows; deep models given by the caller are trained in "
            "place, so only a fresh bundle is compared; the process-wide policy 'deterministic algorithms' is meant to be global; in-place edits without refit are not claimed"),
    "M02": ("metamorphic: labels of nodes outside training and validation changed; edges listed in another order; other backends of one function", "poisson_mbo depends on edge order through its own random walk seeds and is excused from it"),
    "M03": ("metamorphic: renamed classes; argmax over the columns; sums of probabilities", "graphsage_inductive documents labels 0..k-1; democratic co-learning may give a row no weight (zeros)"),
    "E01": ("an independent scorer: model, rows of the split, labels, metric by its definition", "all 47 methods, every metric"),
    "A01": ("re-execution in other batches, orders, processes; a rule for each operation (range, shape, what may change); pairwise comparison of draws over seeds and epochs, "
            "counted only where coincidence is less likely than one in a billion", "numpy and torch versions of an operation are not claimed to draw equally; the second strong view equals the first of seed+1 by design"),
    "B07": ("recomputation of every input from split, processed data, view and augmentation plans; identity of rows by value", "bundles' internals (memory banks) are M01's"),
    "B08": ("the run ends 'success' with every metric, unless the harness finds the documented need missing (no labels of a class, too few rows, no graph, one-class bootstraps)",
            "mixup_manifold and a zero p_cutoff of adsh are excluded by their documentation"),
    "C01": ("the library called directly with the same inputs on a fresh copy; a model of what the caches hold (by fingerprint); a split directory is the old or the new split",
            "2-5 commands; the terminal is typer's test runner"),
}
FIRST_MISSED = {
    "P02-fit-order-ignored": "missed at first: fit subsets in another order and with repeats were added to the generator",
    "B02-error-text-first": "missed at first: error.txt is now read while the run is killed between its two files",
    "B06-early-stop-on-test": "missed at first: splits without validation rows were added",
    "M02-spread-from-known-labels": "caught by M02's direct calls of the diffusion functions, not by whole benchmark runs",
    "A01-seed-plus-epoch": "missed at first: draws are now compared over eight (seed, epoch) contexts pairwise",
    "M03-democratic-range": "missed at first: class names that are other integers near 0..k-1 were added, and more runs",
    "B08-views-of-test": "planted for E01, which it does not break (the run fails); B08 was written for this class",
    "C01-overwrite-first": "the plan refused by the data and the split left by a killed overwrite were added for it",
}

out = ["## The properties, one by one", "",
       "Each section gives what a simulated run consists of (`rule` of the scenario; what is drawn, injected and repeated), the oracle, the bounds and",
       "exclusions, the cost of the quick check (runs; all stop after 300 s), and why this reaches what tests do not. Every scenario draws its faults from",
       "kill, torn write, full disk, EIO/EMFILE/EACCES/EBUSY, network error, interrupt, failed allocation, stall, clock jump (each evidence file counts them),",
       "has probes that must be reached (`must_reach`), and shrinks and replays what it finds.", ""]
rows = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
for r in rows:
    i = r["id"]
    sc = importlib.import_module(scen.TABLE[i]).SCENARIOS[i]
    o, b = O[i]
    out += [f"### {i}: {r['title']}", "", f"* **Run.** {sc.rule[0].upper() + sc.rule[1:]}.", f"* **Oracle.** {o[0].upper() + o[1:]}.", f"* **Bounds.** {b[0].upper() + b[1:]}.",
            f"* **Cost.** {sc.quick_runs} runs quick, {sc.thorough_runs} thorough. Probes: {', '.join(sc.must_reach)}.", f"* **Beyond tests.** {r['why_tests_cant']}", ""]
out += ["## Planted bugs", "", "Each was written from the property's text; the demonstration fails only with it and the existing tests pass. All are caught by the check of their property.", "",
        "| bug | property | needs | remark |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {FIRST_MISSED.get(d.name, '')} |")
kf = [json.loads(x) for x in (V / "known_findings.jsonl").read_text().splitlines() if x.strip()]
out += ["", "## Genuine defects found", "", "All were repaired by a `fix:` commit (recorded in known_findings.jsonl); none is left open." if all(k["status"] == "fixed" for k in kf) else "", ""]
out += [f"* {k['property']} {k.get('commit', 'open')}: {k['what']}" for k in kf]
p = V / "DESIGN.md"
head, tail = p.read_text().split("<!-- generated -->")[0], (V / "tools" / "design_tail.md").read_text()
p.write_text(head.rstrip() + "\n\n<!-- generated -->\n" + "\n".join(out) + "\n\n" + tail)
