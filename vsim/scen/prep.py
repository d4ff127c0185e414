"""Preprocess step cache: crash/damage transparency, cross-contamination, concurrency."""

from __future__ import annotations

import hashlib
import os

from ..canon import canon, diff
from ..core import Violation
from . import Scenario

WORDS = ["alpha", "béta", "γ x", "line\nbreak", 'q"uote', "", "tab\tw", "emoji \U0001f600", "back\\slash",
         "\u2028sep", "the cat", "the dog runs", "x" * 30, "  lead", "trail  ", "a b a"]


def _rng(*a):
    import numpy as np

    return np.random.Generator(np.random.PCG64(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")))


def build_dataset(kind, seed):
    """In-memory dataset of one kind; content depends on seed only."""
    import numpy as np

    from modssc.data_loader.types import LoadedDataset, Split

    def part(name, n):
        g = _rng(kind, seed, name)
        masks = edges = None
        if kind == "tab":
            X = g.normal(size=(n, 4)).astype(np.float32 if seed % 2 else np.float64)
            X[0, 1] = np.nan
            y = g.integers(0, 3, n)
        elif kind == "mixed":
            X = np.empty((n, 3), dtype=object)
            for i in range(n):
                X[i] = [float(g.normal()), ["red", "blü", "x y"][int(g.integers(0, 3))], int(g.integers(0, 4))]
            y = np.array([["c0", "c1", "ç"][int(v)] for v in g.integers(0, 3, n)], dtype=object)
        elif kind == "text":
            X = np.array([f"{WORDS[int(g.integers(0, len(WORDS)))]} {WORDS[int(g.integers(0, len(WORDS)))]}" for _ in range(n)],
                         dtype=object)
            y = np.array([["pos", "neg"][int(v)] for v in g.integers(0, 2, n)])
        elif kind == "vision":
            X = g.integers(0, 255, (n, 6, 5, 3)).astype(np.uint8 if seed % 2 else np.float32)
            y = g.integers(0, 3, n)
        elif kind == "ragged":
            X = np.empty(n, dtype=object)
            for i in range(n):
                X[i] = g.integers(0, 255, (4, 4 + (i % 2 if seed % 2 else 0), 1)).astype(np.uint8)
            y = g.integers(0, 3, n)
        elif kind == "audio":
            X = g.normal(size=(n, 160)).astype(np.float32)
            y = g.integers(0, 3, n)
        elif kind == "graph":
            X = g.normal(size=(n, 3)).astype(np.float32)
            y = g.integers(0, 2, n)
            edges = g.integers(0, n, (2, 3 * n)).astype(np.int64)
            masks = {"train": g.random(n) < 0.5, "val": g.random(n) < 0.3}
        else:
            raise AssertionError(kind)
        return Split(X=X, y=y, edges=edges, masks=masks)

    mod = {"tab": "tabular", "mixed": "tabular", "ragged": "vision"}.get(kind, kind)
    test = part("test", 5) if seed % 3 else None
    fp = hashlib.sha256(f"{kind}{seed}".encode()).hexdigest()
    return LoadedDataset(train=part("train", 12), test=test,
                         meta={"modality": mod, "dataset_fingerprint": fp, "name": kind, "nested": {"a": [1, 2]}})


KINDS = ("tab", "graph", "text", "mixed", "vision", "audio", "ragged")

CORE = [
    ("core.copy_raw", {}),
    ("core.ensure_2d", {}),
    ("core.random_projection", {"n_components": [2, 3], "normalize": [True, False]}),
    ("core.pca", {"n_components": [2, 1], "center": [True, False]}),
    ("core.cast_dtype", {"dtype": ["float32", "float64", "int32"]}),
    ("core.cast_fp16", {}),
    ("core.to_numpy", {}),
    ("core.to_torch", {"dtype": ["float32", None, "float64", "bfloat16"], "input_key": ["features.X", "raw.X"]}),
]
LABELS = [
    ("labels.encode", {}),
    ("labels.ensure_onehot", {"dtype": ["float32", "int64"]}),
    ("labels.to_numpy", {}),
    ("labels.to_torch", {"dtype": ["int64", "float32"]}),
]
POOL = {
    "tab": [("tabular.impute", {"strategy": ["mean", "median"]}), ("tabular.standard_scaler", {"with_mean": [True, False]}),
            ("core.to_torch", {"input_key": ["features.X", "labels.y", "raw.X"]})],
    "mixed": [("tabular.one_hot", {"handle_unknown": ["ignore"]}), ("tabular.standard_scaler", {"with_std": [True, False]}),
              ("core.copy_raw", {})],
    "text": [("text.ensure_strings", {}), ("text.hash_tokenizer", {"max_length": [4, 6], "vocab_size": [50, 20]}),
             ("text.vocab_tokenizer", {"max_length": [4, 5], "min_freq": [1, 2]}),
             ("text.tfidf", {"max_features": [None, 5], "ngram_range": [[1, 1], [1, 2]]}),
             ("embeddings.auto", {}), ("core.to_torch", {"input_key": ["tokens.input_ids", "features.X"], "dtype": ["int64"]})],
    "vision": [("vision.channels_order", {"order": ["NCHW", "NHWC"]}), ("vision.ensure_num_channels", {"num_channels": [3, 1]}),
               ("vision.resize", {"height": [3, 4], "width": [3]}), ("vision.normalize", {}),
               ("vision.zca_whitening", {"eps": [1e-5, 1e-2]}), ("embeddings.auto", {})],
    "ragged": [("vision.squeeze", {"dim": [-1], "as_list": [True, False]}), ("core.copy_raw", {}), ("embeddings.auto", {}),
               ("vision.resize", {"height": [3], "width": [3]})],
    "audio": [("core.copy_raw", {}), ("audio.log_mel_spectrogram", {"n_mels": [4, 6], "n_fft": [64]}), ("embeddings.auto", {})],
    "graph": [("graph.attach_edge_weight", {"weight": [1.0, 0.5]}), ("graph.edge_sparsify", {"keep_fraction": [0.5, 0.8, 1.0]}),
              ("graph.node2vec", {"embedding_dim": [4], "p": [1.0, 0.5]}),
              ("graph.sparse_adjacency", {}), ("graph.dgi", {"embedding_dim": [4], "hidden_dim": [4], "unsup_epochs": [2]}),
              ("graph.edge_sparsify", {"keep_fraction": [0.5, 0.8]})],
}


OMIT = "<omitted>"


def gen_step(c, kind):
    # simplest first: a modality step, then core, then label steps
    w = c.weighted([5, 5, 2], "pool")
    pool = (POOL[kind], CORE, LABELS)[w]
    sid, ps = pool[c.choose(len(pool), "step")]
    out = {}
    for k, v in ps.items():
        i = c.choose(len(v) + 1, "param")  # one past the end: leave the step's default
        if i < len(v):
            out[k] = v[i]
    return [sid, out]


def gen_plan(c, kind):
    steps = [gen_step(c, kind) for _ in range(1 + c.choose(5, "nsteps"))]
    if kind in ("tab", "audio", "graph") and c.flip(1, 2, "base"):
        steps.insert(0, ["core.copy_raw", {}])
    out = ["features.X", "raw.X", "labels.y_onehot", "tokens.input_ids"][c.weighted([8, 2, 1, 1], "outkey")]
    return {"steps": steps, "out": out}


def gen_cfg(c, kind=None, chain_ok=False):
    kind = kind or KINDS[c.choose(len(KINDS), "kind")]
    cfg = {"kind": kind, "ds": 1 + c.choose(3, "ds"), "plans": [gen_plan(c, kind)], "seed": c.choose(3, "seed"),
           "fit": c.choose(8, "fit")}
    if chain_ok and c.flip(1, 4, "chain"):
        cfg["plans"].append(gen_plan(c, kind))
    return cfg


def neighbour(c, cfg):
    """A configuration that differs from cfg in one respect."""
    import copy

    d = copy.deepcopy(cfg)
    w = c.weighted([4, 2, 2, 2, 2, 2, 1, 1], "neighbour")
    plan = d["plans"][c.choose(len(d["plans"]), "which-plan")]
    st = plan["steps"]
    if w == 0:  # one parameter of one step
        cand = [(i, k, v) for i, (sid, ps) in enumerate(st)
                for pool in (POOL[d["kind"]], CORE, LABELS) for (s2, p2) in pool if s2 == sid for k in p2
                for v in [*p2[k], OMIT] if v != ps.get(k, OMIT)]
        if cand:
            i, k, v = cand[c.choose(len(cand), "param-change")]
            if v is OMIT:
                del st[i][1][k]
            else:
                st[i][1][k] = v
            return d
        w = 5
    if w == 1:
        d["seed"] = (d["seed"] + 1 + c.choose(2, "seed+")) % 3
    elif w == 2:
        d["fit"] = (d["fit"] + 1 + c.choose(7, "fit+")) % 8
    elif w == 3:
        d["ds"] = 1 + (d["ds"] + c.choose(2, "ds+")) % 3
    elif w == 4 and len(st) > 1:
        i = c.choose(len(st) - 1, "swap")
        st[i], st[i + 1] = st[i + 1], st[i]
    elif w == 5:
        st[c.choose(len(st), "replace")] = gen_step(c, d["kind"])
    elif w == 6 and len(st) > 1:
        del st[c.choose(len(st), "drop")]
    else:
        st.insert(c.choose(len(st) + 1, "insert-at"), gen_step(c, d["kind"]))
    return d


def show(cfg):
    def pl(p):
        return "[" + ", ".join(s + ("" if not ps else str(ps)) for s, ps in p["steps"]) + f"]->{p['out']}"

    return f"{cfg['kind']}{cfg['ds']} seed={cfg['seed']} fit={cfg['fit']} " + " then ".join(pl(p) for p in cfg["plans"])


def run_cfg(cfg, cache, root):
    """The whole request; returns the outcome in canonical form."""
    import numpy as np

    from modssc.preprocess.plan import PreprocessPlan, StepConfig
    from modssc.preprocess.services.pipeline import preprocess

    ds = build_dataset(cfg["kind"], cfg["ds"])
    fit = [np.arange(6), None, np.array([0, 2, 4, 6, 8]), np.array([8, 6, 4, 2, 0]), np.array([0, 0, 0, 2, 4, 6, 8]),
           np.array([0, 1, 2, 3, 4, 5, 11]), [5, 4, 3, 2, 1, 0], np.array([0, 1, 1, 2, 3, 4, 5], dtype=np.int32)][cfg["fit"]]
    before = canon((ds.train, ds.test, ds.meta))
    for plan in cfg["plans"]:
        plan = PreprocessPlan(steps=tuple(StepConfig(step_id=s, params=p) for s, p in plan["steps"]), output_key=plan["out"])
        r = preprocess(ds, plan, seed=cfg["seed"], fit_indices=fit, cache=cache, cache_dir=root,
                       purge_unused_artifacts=bool(cfg.get("purge")))
        if canon((ds.train, ds.test, ds.meta)) != before:
            return ("mutated", diff(before, canon((ds.train, ds.test, ds.meta))))
        ds = r.dataset
        before = canon((ds.train, ds.test, ds.meta))
    arts = (r.train_artifacts.data, r.test_artifacts.data if r.test_artifacts is not None else None)
    meta = {k: v for k, v in r.dataset.meta.items() if k != "preprocess_cache_dir"}
    return ("ok", canon((r.dataset.train, r.dataset.test, meta, arts)), r.preprocess_fingerprint)


def op_prep(rt, cfg, cache, root="pre", mmap=None, objmax=None, heal=False):
    import modssc.preprocess.cache as pc

    if mmap is not None:
        pc.MMAP_THRESHOLD_BYTES = mmap
    if objmax is not None:
        pc.OBJECT_JSON_MAX_ITEMS = objmax
    try:
        return run_cfg(cfg, cache, os.path.join(rt.root, root) if cache else None)
    except Exception as e:
        from ..core import tb_tail

        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))


class PrepScenario(Scenario):
    real = ["modssc.preprocess (pipeline, cache, plan resolution, all non-download steps)", "numpy/scipy/torch/sklearn",
            "real file system below a scratch directory"]
    stub = ["clock", "entropy", "pre-trained encoders (the package's own stub encoders)"]
    assumptions = [
        "datasets carry a fingerprint that identifies their content (as every loaded dataset does)",
        "reference = the same request with cache=False in a fresh process",
        "a crash is a killed process: what was handed to the kernel survives, user-space buffers are lost",
    ]

    def preload(self):
        import sklearn.decomposition  # noqa: F401
        import sklearn.feature_extraction.text  # noqa: F401
        import sklearn.impute  # noqa: F401
        import sklearn.preprocessing  # noqa: F401
        import torch
        import torchaudio  # noqa: F401

        torch.set_num_threads(1)
        import importlib

        import modssc.preprocess.services.pipeline  # noqa: F401
        from modssc.preprocess.catalog import BUILTIN_STEPS

        for s in BUILTIN_STEPS:
            importlib.import_module(s.import_path.split(":")[0])
        try:
            import modssc.supervised.backends.torch.common  # noqa: F401
        except Exception:
            pass

    def val(self, p, when):
        kind, val = p.result
        if kind == "hang":
            raise Violation("stuck", f"{when}: {val}")
        if kind != "ok":
            raise AssertionError(f"harness: {p.result}")
        return val

    def same(self, cfg, ref, got, when):
        if ref[0] == "err":
            # an ill-formed plan may notice a missing artifact elsewhere when intermediates are purged
            if got[0] != "err" or (got[1:3] != ref[1:3] and not cfg.get("purge")):
                raise Violation("differs-from-uncached", f"{when}: {show(cfg)}: without cache it fails with {ref[1:3]}, "
                                f"with cache: {got[:3] if got[0] == 'err' else 'succeeds'}")
            return
        if got[0] == "mutated":
            raise Violation("input-modified", f"{when}: {show(cfg)} changed its input dataset: {got[1]}")
        if got[0] == "err":
            raise Violation("cache-error", f"{when}: {show(cfg)} fails with the cache: {got[1:]}")
        if cfg.get("purge"):  # same result, but intermediate artifacts may be gone
            ref, got = (ref[0], ("tup", ref[1][1][:3]), ref[2]), (got[0], ("tup", got[1][1][:3]), got[2])
        if got != ref:
            raise Violation("differs-from-uncached", f"{when}: {show(cfg)}: result differs from the one without cache: "
                            f"{diff(ref, got)}")

    def ref(self, sim, cfg):
        cfg = {k: v for k, v in cfg.items() if k != "purge"}
        p = sim.run_one(sim.spawn("ref", op_prep, cfg, False))
        v = self.val(p, "uncached")
        if v[0] == "mutated":
            raise Violation("input-modified", f"{show(cfg)} changed its input dataset: {v[1]}")
        return v

    def knobs(self, c):
        return {"mmap": c.pick([None, 0, None, 100], "mmap"), "objmax": c.pick([None, 3, None, 0], "objmax")}


def cache_files(root):
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return sorted(out)


class P01(PrepScenario):
    prop = "P01"
    rule = ("2-5 preprocessing runs of one or two requests over one cache, each possibly killed, interrupted or hit by a "
            "disk error at a chosen step; between runs cache files may be lost or truncated (as after a power cut); every "
            "run that ends undisturbed and the final one must equal the uncached result; non-trivial: a fault or damage took effect")
    quick_runs = 600
    thorough_runs = 30000
    must_reach = ("killed", "damaged", "warm_equal")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfgs = [gen_cfg(c)]
        if c.flip(1, 3, "second"):
            cfgs.append(neighbour(c, cfgs[0]))
        for g in cfgs:
            g["purge"] = c.flip(1, 4, "purge")
        refs = [self.ref(sim, g) for g in cfgs]
        sim.trace += [f"request {i}: {show(g)}" for i, g in enumerate(cfgs)]
        hurt = 0
        n = 1 + c.choose(4, "nops")
        for i in range(n):
            k = c.choose(len(cfgs), "cfg")
            f0 = sum(sim.fired.values())
            fk = {}
            if c.flip(2, 3, "faulty"):
                fk = dict(faults=("crash", "torn", "enospc", "errno", "interrupt", "memory"), max_faults=1,
                          hint=c.pick([30, 10, 80], "hint"))
            p = sim.run_one(sim.spawn(f"run{i}", _prep_kw, cfgs[k], self.knobs(c)), **fk)
            hit = sum(sim.fired.values()) > f0
            hurt += hit
            if p.state == "crashed":
                probes["killed"] = 1
            elif hit:
                kind, val = p.result
                if kind == "ok" and val[0] == "ok":
                    self.same(cfgs[k], refs[k], val, f"run {i} (hit by a fault, but it returned)")
            else:
                self.same(cfgs[k], refs[k], self.val(p, f"run {i}"), f"run {i}")
                if i:
                    probes["warm_equal"] = 1
            if c.flip(1, 4, "damage"):
                fs = cache_files(os.path.join(sim.root, "pre"))
                for _ in range(1 + c.choose(2, "ndamage")):
                    if not fs:
                        break
                    f = fs[c.choose(len(fs), "file")]
                    if not os.path.exists(f):
                        continue
                    how = c.choose(3, "how")
                    sz = os.path.getsize(f)
                    if how == 0:
                        os.unlink(f)
                    else:
                        with open(f, "r+b") as h:
                            h.truncate(0 if how == 1 else sz * c.choose(8, "keep") // 8)
                    sim.fired[["lost_file", "emptied_file", "truncated_file"][how]] += 1
                    hurt += 1
                    probes["damaged"] = 1
                    sim.trace.append(f"{['lost', 'emptied', 'truncated'][how]}: {os.path.relpath(f, sim.root)}")
        for k, g in enumerate(cfgs):
            for rep in range(2):
                p = sim.run_one(sim.spawn(f"final{k}.{rep}", _prep_kw, g, self.knobs(c)))
                self.same(g, refs[k], self.val(p, "final"), f"final run {rep} after the faults")
        return {"nontrivial": bool(hurt), "kind": cfgs[0]["kind"], "probes": probes, "key": hashlib.sha256(repr(cfgs).encode()).hexdigest()[:12]}


def _prep_kw(rt, cfg, kw):
    return op_prep(rt, cfg, True, **kw)


class P02(PrepScenario):
    prop = "P02"
    rule = ("2-6 requests that differ in a parameter, a step, the order, the seed, the fit subset, the dataset or the plan "
            "applied before, run one after another over one shared cache; each must equal its uncached result, and "
            "equal preprocess fingerprints must mean equal results; non-trivial: at least two distinct requests succeeded")
    quick_runs = 500
    thorough_runs = 40000
    must_reach = ("shared_prefix", "chained", "distinct")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfgs = [gen_cfg(c, chain_ok=True)]
        for _ in range(1 + c.choose(4, "nreq")):
            base = cfgs[c.choose(len(cfgs), "base")]
            nb = neighbour(c, base)
            if c.flip(1, 4, "twice"):
                nb = neighbour(c, nb)
            cfgs.append(nb)
        for g in cfgs:
            g["purge"] = c.flip(1, 6, "purge")
        refs = []
        for g in cfgs:
            refs.append(self.ref(sim, g))
        sim.trace += [f"request {i}: {show(g)}" for i, g in enumerate(cfgs)]
        byfp = {}
        for i, (g, r) in enumerate(zip(cfgs, refs)):
            if len(g["plans"]) > 1:
                probes["chained"] = 1
            if r[0] == "ok":
                key = r[2]
                data = r[1][1][:2]
                if key in byfp and byfp[key][0] != data:
                    raise Violation("fingerprint-collision", f"different results under one preprocess fingerprint: "
                                    f"{show(cfgs[byfp[key][1]])} and {show(g)}: {diff(byfp[key][0], data)}")
                byfp.setdefault(key, (data, i))
        order = list(range(len(cfgs)))
        for _ in range(c.choose(3, "repeat")):
            order.append(c.choose(len(cfgs), "again"))
        for j, i in enumerate(order):
            p = sim.run_one(sim.spawn(f"req{j}", _prep_kw, cfgs[i], self.knobs(c)))
            self.same(cfgs[i], refs[i], self.val(p, f"request {i}"), f"after requests {order[:j]}, request {i}")
            probes["shared_prefix"] = 1
        ok = {repr((g["plans"], g["seed"], g["fit"], g["ds"])) for g, r in zip(cfgs, refs) if r[0] == "ok"}
        if len(ok) > 1:
            probes["distinct"] = 1
        return {"nontrivial": len(ok) > 1, "kind": cfgs[0]["kind"], "probes": probes, "key": hashlib.sha256(repr(cfgs).encode()).hexdigest()[:12]}


class P03(PrepScenario):
    prop = "P03"
    rule = ("2-4 processes run equal or neighbouring requests over one cache under a seeded preemptive schedule (stalls, "
            "optionally one crash), cold or warm; every result must equal its uncached result; "
            "non-trivial: at least one preemption between live processes")
    quick_runs = 700
    thorough_runs = 40000
    must_reach = ("overlap", "crashed", "same_request")

    def run(self, sim):
        c = sim.c
        probes = {}
        base = gen_cfg(c)
        n = 2 + c.weighted([4, 2, 1], "procs")
        cfgs = [base]
        for _ in range(n - 1):
            cfgs.append(neighbour(c, base) if c.flip(1, 3, "other") else base)
        uniq = []
        for g in cfgs:
            if g not in uniq:
                uniq.append(g)
        refs = [self.ref(sim, g) for g in uniq]
        sim.trace += [f"P{i}: {show(g)}" for i, g in enumerate(cfgs)]
        if len(uniq) < n:
            probes["same_request"] = 1
        if c.flip(1, 4, "warm"):
            p = sim.run_one(sim.spawn("pre", _prep_kw, base, self.knobs(c)))
            self.same(base, refs[0], self.val(p, "first"), "first run")
            if c.flip(1, 2, "lose"):
                fs = cache_files(os.path.join(sim.root, "pre"))
                if fs:
                    f = fs[c.choose(len(fs), "file")]
                    os.unlink(f)
                    sim.trace.append(f"lost: {os.path.relpath(f, sim.root)}")
        procs = [sim.spawn(f"P{i}", _prep_kw, g, self.knobs(c)) for i, g in enumerate(cfgs)]
        crash = c.flip(1, 4, "crash")
        sim.run_many(procs, faults=("crash", "torn"), max_faults=1 if crash else 0, max_switch=c.pick([6, 2, 12, 25], "switches"),
                     hint=60, stalls_left=c.choose(2, "stalls"))
        for p, g in zip(procs, cfgs):
            if p.state == "crashed":
                probes["crashed"] = 1
                continue
            self.same(g, refs[uniq.index(g)], self.val(p, p.name), f"{p.name} (concurrent)")
        if sim.switches:
            probes["overlap"] = 1
        for k, g in enumerate(uniq):
            p = sim.run_one(sim.spawn(f"final{k}", _prep_kw, g, self.knobs(c)))
            self.same(g, refs[k], self.val(p, "final"), "a run after the concurrent ones")
        return {"nontrivial": sim.switches > 0, "kind": base["kind"], "probes": probes, "key": hashlib.sha256(repr(cfgs).encode()).hexdigest()[:12]}


FITS = 11
POSITIONAL = ("embeddings.auto", "graph.node2vec", "graph.dgi", "graph.edge_sparsify")  # the stub encoder numbers its rows


def fit_rows(i):
    import numpy as np

    return [np.arange(6), np.arange(7), np.array([0, 2, 4, 6, 8]), np.array([8, 6, 4, 2, 0]), np.array([0, 0, 0, 2, 4, 6, 8]),
            np.array([0, 1, 2, 3, 4, 5, 11]), [5, 4, 3, 2, 1, 0], np.array([0, 1, 1, 2, 3, 4, 5], dtype=np.int32),
            np.array([4]), np.array([10, 3]), np.array([7, 7, 9])][i]


def row_world(cfg, how, pick):
    """The dataset, the dataset with every other row replaced, or with a test set made of training rows."""
    import dataclasses

    import numpy as np

    ds = build_dataset(cfg["kind"], cfg["ds"])
    if cfg.get("blank") and cfg["kind"] == "tab":  # nothing observed of a column in the fit rows
        ds.train.X[np.asarray(fit_rows(cfg["held"])), 2] = np.nan
    if how == "as-is":
        return ds
    fp = hashlib.sha256(f"{cfg['kind']}{cfg['ds']}{how}{pick}{cfg['held']}".encode()).hexdigest()
    meta = {**ds.meta, "dataset_fingerprint": fp}
    if how == "test-of-train":
        i = np.array(pick)
        y = ds.train.y[i]
        if len(pick) > 3:  # the last copy has a class of its own
            y[-1] = 7 if y.dtype.kind == "i" else "zz"
        return dataclasses.replace(ds, meta=meta, test=dataclasses.replace(ds.train, X=ds.train.X[i], y=y, masks=None, edges=None))
    new = build_dataset(cfg["kind"], cfg["ds"] + 6)
    X = ds.train.X.copy()
    if X.dtype.kind == "U":
        X = X.astype(object)
    out = np.setdiff1d(np.arange(len(X)), np.asarray(fit_rows(cfg["held"])))
    for r in out:
        X[r] = new.train.X[(r * 5 + pick[0]) % len(new.train.X)]
    if cfg.get("blank") and cfg["kind"] == "mixed":  # a word where the fit rows have numbers
        X[out[-1]] = [X[out[-1]][0], X[out[-1]][1], "word"]
    ds = dataclasses.replace(ds, meta=meta, train=dataclasses.replace(ds.train, X=X))
    if ds.test is not None:
        ds = dataclasses.replace(ds, test=new.test)
    return ds


def plain(v):
    """A row-wise artifact as an ndarray, else None."""
    import numpy as np

    if hasattr(v, "toarray"):
        return np.asarray(v.toarray())
    if type(v).__module__.startswith("torch"):
        return v.detach().float().numpy() if v.dtype.is_floating_point else v.numpy()
    if isinstance(v, (list, tuple)):
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = plain(x) if hasattr(x, "shape") else x
        return a
    return v if isinstance(v, np.ndarray) and v.ndim else None


def op_rows(rt, cfg, how, pick, cache, mmap=None, objmax=None):
    """Preprocess one of the worlds; the row-wise results of train and test."""
    import modssc.preprocess.cache as pc
    from modssc.preprocess.plan import PreprocessPlan, StepConfig
    from modssc.preprocess.services.pipeline import preprocess

    if mmap is not None:
        pc.MMAP_THRESHOLD_BYTES = mmap
    if objmax is not None:
        pc.OBJECT_JSON_MAX_ITEMS = objmax
    ds = row_world(cfg, how, pick)
    plan = cfg["plans"][0]
    plan = PreprocessPlan(steps=tuple(StepConfig(step_id=s, params=p) for s, p in plan["steps"]), output_key=plan["out"])
    try:
        r = preprocess(ds, plan, seed=cfg["seed"], fit_indices=fit_rows(cfg["fit"]), cache=cache, cache_dir=os.path.join(rt.root, "pre") if cache else None)
    except Exception as e:
        from ..core import tb_tail

        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))
    out = []
    for part, arts in ((r.dataset.train, r.train_artifacts), (r.dataset.test, r.test_artifacts)):
        d = {}
        if part is not None:
            for k, v in [*arts.data.items(), ("X", part.X), ("y", part.y)]:
                v = plain(v)
                if v is not None and (k == "labels.classes" or len(v) == len(ds.train.y if arts is r.train_artifacts else ds.test.y)):
                    d[k] = v.copy()
        out.append(d)
    raw = [plain(p.y).copy() if p is not None else None for p in (ds.train, ds.test)]
    return ("ok", out[0], out[1], raw)


def unlike(a, b, tol):
    """How two lists of rows differ, or None."""
    import numpy as np

    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
        for i in range(len(a)):
            x, y = a[i], b[i]
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
                    return f"row {i}: {x!r} and {y!r}"
                w = unlike(x, y, tol)
                if w:
                    return f"row {i}: {w}"
            elif x != y and not (x != x and y != y):
                return f"row {i}: {x!r} and {y!r}"
        return None
    if a.dtype != b.dtype:
        return f"types {a.dtype} and {b.dtype}"
    ok = np.isclose(a, b, rtol=tol, atol=tol * max(1.0, float(np.nanmax(np.abs(a), initial=0))) if a.dtype.kind == "f" else 0, equal_nan=True) \
        if a.dtype.kind == "f" else a == b
    if ok.all():
        return None
    w = tuple(int(x[0]) for x in np.nonzero(~ok))
    return f"at {w}: {a[w]!r} and {b[w]!r}"


class P04(PrepScenario):
    prop = "P04"
    rule = ("one request on a dataset, on the dataset with all rows outside the fit subset replaced, and on the dataset with a test set of copies of "
            "training rows, run over one cache in seeded order, some killed or hit by disk errors before: fit rows must come out the same, a copied "
            "row like its original, and labels of one class with one number; non-trivial: a row was compared")
    quick_runs = 900
    thorough_runs = 40000
    must_reach = ("fit-only", "copied", "labels", "unseen-class", "missing-class", "killed")

    def run(self, sim):
        import numpy as np

        c = sim.c
        probes = {}
        cfg = gen_cfg(c, kind=[k for k in KINDS if k != "graph"][c.choose(len(KINDS) - 1, "kind6")])
        if c.flip(1, 4, "labels"):
            cfg["plans"][0]["steps"].insert(0, ["labels.encode", {}])
        cfg["fit"] = cfg["held"] = c.choose(FITS, "fitset")
        if cfg["kind"] in ("tab", "mixed") and c.flip(1, 3, "blank"):
            cfg["blank"] = 1
        steps = cfg["plans"][0]["steps"]
        ids = [x for x, _ in steps]
        n = 12
        pick = [c.choose(n, "row") for _ in range(1 + c.choose(8, "ncopy"))]
        if c.flip(1, 2, "few"):  # a test set of one class
            pick = pick[:1] * 2
        sim.trace.append(f"{show(cfg)} copies={pick} fit={cfg['fit']} blank={cfg.get('blank', 0)}")
        jobs = ["as-is", "others-replaced", "test-of-train"]
        first = c.turn(3, "first")
        jobs = jobs[first:] + jobs[:first]
        got = {}
        for j, how in enumerate(jobs):
            cache = c.flip(2, 3, "cache")
            if cache and c.flip(1, 2, "earlier"):
                other = dict(cfg, fit=(cfg["fit"] + c.choose(FITS, "other-fit")) % FITS)
                f0 = sum(sim.fired.values())
                p = sim.run_one(sim.spawn(f"earlier{j}", op_rows, other, how, pick, True, **{}), faults=("crash", "torn", "enospc", "errno", "interrupt"),
                                max_faults=1, hint=c.pick([30, 10, 80], "hint"))
                if sum(sim.fired.values()) > f0:
                    probes["killed"] = 1
            p = sim.run_one(sim.spawn(f"run{j}", _rows_kw, cfg, how, pick, cache, self.knobs(c)))
            got[how] = self.val(p, how)
        key = hashlib.sha256(repr((cfg, pick)).encode()).hexdigest()[:12]
        for how, v in got.items():
            if v[0] == "ok":
                self.labels(cfg, how, v, ids, probes)
        a, b, t = (got[k] for k in ("as-is", "others-replaced", "test-of-train"))
        if a[0] == "ok" and b[0] == "ok":
            probes["fit-only"] = 1
            idx = np.asarray(fit_rows(cfg["fit"]))
            for k in a[1]:
                if k == "labels.classes":
                    continue
                if k not in b[1]:
                    raise Violation("fit-leak", f"{show(cfg)}: {k} is no longer row by row when other rows change")
                w = unlike(a[1][k][idx], b[1][k][idx], 1e-9)
                if w:
                    raise Violation("fit-leak", f"{show(cfg)}: {k} of the fit rows depends on rows outside the fit subset: {w}")
        blurred = any(x in POSITIONAL or x in ("core.cast_fp16", "core.cast_dtype", "core.to_torch", "labels.to_torch") for x in ids)
        lin = [i for i, x in enumerate(ids) if x in ("core.pca", "core.random_projection", "vision.zca_whitening")]
        sc = [i for i, x in enumerate(ids) if x in ("tabular.standard_scaler", "vision.zca_whitening")]
        if t[0] == "ok" and not blurred and not (lin and sc and lin[0] < sc[-1]):
            probes["copied"] = 1
            for k in t[1]:
                if k == "labels.classes" or k.startswith("labels.y_onehot"):
                    continue
                if k not in t[2]:
                    raise Violation("row-differs", f"{show(cfg)}: test has no row-wise {k}")
                m = len(pick) - (len(pick) > 3 and (k == "y" or k.endswith(".y") or k.startswith("labels.") or k == "X" and cfg["plans"][0]["out"].startswith("labels.")))
                w = unlike(t[1][k][pick[:m]], t[2][k][:m], 1e-4)
                if w and not (k == "raw.X" or k == "X") or w and t[1][k].dtype.kind != "U":
                    raise Violation("row-differs", f"{show(cfg)}: {k} of test rows that are copies of train rows {pick}: {w}")
        return {"nontrivial": "fit-only" in probes or "copied" in probes, "kind": cfg["kind"], "probes": probes, "key": key}

    def labels(self, cfg, how, v, ids, probes):
        """One class, one number; one-hot columns mean the same in both splits."""
        import numpy as np

        _, tr, te, raw = v
        if "labels.encode" in ids and raw[1] is not None and "labels.classes" in te:
            kt, ke = set(raw[0].tolist()), set(raw[1].tolist())
            if ke - kt:
                probes["unseen-class"] = 1
            if kt - ke:
                probes["missing-class"] = 1
            last = [x for x in ids if x.startswith("labels.") and x != "labels.ensure_onehot"][-1]
            if last == "labels.encode":
                probes["labels"] = 1
                code = {}
                for y, e in [*zip(raw[0].tolist(), tr["labels.y"].tolist()), *zip(raw[1].tolist(), te["labels.y"].tolist())]:
                    if code.setdefault(y, e) != e:
                        raise Violation("label-numbers", f"{show(cfg)} ({how}): class {y!r} is {code[y]} and {e}")
                if len(set(code.values())) != len(code):
                    raise Violation("label-numbers", f"{show(cfg)} ({how}): {code}")
                for part, ys in ((tr, raw[0]), (te, raw[1])):
                    if [str(x) for x in part["labels.classes"][part["labels.y"]].tolist()] != [str(x) for x in ys.tolist()]:
                        raise Violation("label-numbers", f"{show(cfg)} ({how}): labels.classes {part['labels.classes']} does not name {part['labels.y']}: {ys}")
        if "labels.y_onehot" in tr and raw[1] is not None and "labels.y_onehot" in te:
            col = {}
            for part, ys in ((tr, raw[0]), (te, raw[1])):
                for y, r in zip(ys.tolist(), part["labels.y_onehot"]):
                    w = np.nonzero(r)[0].tolist()
                    if w and col.setdefault(y, w) != w:
                        raise Violation("label-numbers", f"{show(cfg)} ({how}): class {y!r} is one-hot column {col[y]} and {w}")
            if tr["labels.y_onehot"].shape[1] != te["labels.y_onehot"].shape[1]:
                raise Violation("label-numbers", f"{show(cfg)} ({how}): one-hot widths {tr['labels.y_onehot'].shape[1]} and {te['labels.y_onehot'].shape[1]}")


def _rows_kw(rt, cfg, how, pick, cache, kw):
    return op_rows(rt, cfg, how, pick, cache, **kw)


SCENARIOS = {s.prop: s() for s in (P01, P02, P03, P04)}
