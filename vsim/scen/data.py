"""Dataset cache: crash recovery, mutual exclusion, lock liveness, index, fidelity, batch download."""

from __future__ import annotations

import errno
import sys
import types
from collections import Counter

from .. import seam
from ..canon import canon, diff
from ..core import Violation
from . import TABLE, Scenario

seam.MUT.add("ext")
seam.ERRNOS["ext"] = [errno.ECONNRESET, errno.ETIMEDOUT]

# ------------------------------------------------------------------ simulated upstream
WORDS = ["alpha", "béta", "γ", "line\nbreak", 'q"uote', "", "tab\t", "emoji \U0001f600", "back\\slash",
         "\u2028sep", "nul-free", "long " * 40, "  lead", "trail  "]


def _net(what):
    """One interaction with the (simulated) upstream service."""
    rt = seam.RT
    if rt is not None:
        rt.point("ext", what)


def _begin(name):
    _net(f"fetch-begin {name}")


def _end(name):
    rt = seam.RT
    if rt is not None and not rt.busy:
        rt.events.append(("fetch-end", name))


MISSING = set()  # simulated missing extras (per process)


def _gate(extra):
    if extra in MISSING:
        raise ImportError(f"no module for {extra} (simulated)")


def _h(*a):
    import hashlib

    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


def fake_hf(name, config=None, cache_dir=None, **k):
    tag = f"hf {name}/{config}"
    _begin(tag)
    try:
        out = {}
        for split, n in (("train", 14), ("test", 6)):
            if split == "test" and _h(name) % 3 == 0:
                split = "validation"
            _net(f"fetch {tag} {split}")
            out[split] = {
                "text": [f"{WORDS[_h(name, config, split, i) % len(WORDS)]}|{i}" for i in range(n)],
                "label": [_h(name, config, split, i, "y") % 4 for i in range(n)],
                "content": [f"C{i} {WORDS[_h(name, split, i, 'c') % len(WORDS)]}" for i in range(n)],
                "review_body": [f"R{i} {WORDS[_h(name, split, i, 'r') % len(WORDS)]}" for i in range(n)],
                "title": [f"T{i} {WORDS[_h(name, split, i) % len(WORDS)]}" for i in range(n)],
                "stars": [_h(name, config, split, i, "s") % 5 for i in range(n)],
            }
        if _h(name) % 2:
            out["validation"] = {k: v[:3][::-1] for k, v in out["train"].items()}
        return out
    finally:
        _end(tag)


def fake_openml(*, return_X_y=True, as_frame=False, data_home=None, data_id=None, name=None,
                version=None):
    import numpy as np

    tag = f"openml {data_id or name}"
    _begin(tag)
    try:
        _net(f"fetch {tag}")
        s = _h("openml", data_id, name, version)
        rng = np.random.Generator(np.random.PCG64(s))
        X = rng.normal(size=(12, 3))
        y = np.array([f"c{int(v)}" for v in rng.integers(0, 3, 12)], dtype=object)
        if s % 2:
            X = X.astype(object)
            X[0, 0] = None
            X[1, 1] = "cat"
        return X, y
    finally:
        _end(tag)


def fake_tfds(full_name, split, as_supervised=True, data_dir=None):
    import numpy as np

    tag = f"tfds {full_name}"
    _begin(f"{tag} {split}")
    try:
        _net(f"fetch {tag} {split}")
        if split == "test" and "notest" in full_name:
            raise ValueError("Unknown split 'test'")
        s = _h("tfds", full_name, split)
        rng = np.random.Generator(np.random.PCG64(s))
        n = 8 if split == "train" else 4
        return [(rng.integers(0, 255, (2, 2, 1)).astype(np.uint8), int(rng.integers(0, 3)))
                for _ in range(n)]
    finally:
        _end(f"{tag} {split}")


class FakePlanetoid:
    def __init__(self, root, name):
        import numpy as np

        tag = f"pyg {name}"
        _begin(tag)
        try:
            _net(f"fetch {tag}")
            rng = np.random.Generator(np.random.PCG64(_h("pyg", name)))
            n = 9
            m = rng.integers(0, 3, n)
            self.data = types.SimpleNamespace(
                x=rng.normal(size=(n, 3)).astype(np.float32),
                y=rng.integers(0, 3, n),
                edge_index=rng.integers(0, n, (2, 16)),
                train_mask=m == 0, val_mask=m == 1, test_mask=m == 2,
            )
        finally:
            _end(tag)

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return self.data


class FakeSpeech:
    def __init__(self, root, subset=None, download=True):
        tag = f"torchaudio SPEECHCOMMANDS {subset}"
        _begin(tag)
        try:
            _net(f"fetch {tag}")
            n = 6 if subset == "training" else 3
            self._path = f"{root}/SpeechCommands/v2"
            self._walker = [f"{['yes', 'no', 'up'][i % 3]}/{subset}_{i}.wav" for i in range(n)]
        finally:
            _end(tag)


class FakeYesno:
    def __init__(self, root, download=True):
        tag = "torchaudio YESNO"
        _begin(tag)
        try:
            _net(f"fetch {tag}")
            self._path = f"{root}/waves_yesno"
            self._walker = [f"{i % 2}_{i}_0_1.wav" for i in range(5)]
        finally:
            _end(tag)


def _vision(name, part, n=6):
    import numpy as np

    tag = f"torchvision {name}"
    _begin(f"{tag} {part}")
    try:
        _net(f"fetch {tag} {part}")
        rng = np.random.Generator(np.random.PCG64(_h("tv", name, part)))
        n = n if part == "train" else n // 2
        return rng.integers(0, 255, (n, 2, 2, 3)).astype(np.uint8), rng.integers(0, 3, n)
    finally:
        _end(f"{tag} {part}")


def _tv_train(name):
    class DS:  # data / targets, chosen with train=
        def __init__(self, root, train=True, download=False):
            self.data, y = _vision(name, "train" if train else "test")
            self.targets = y.tolist()

    DS.__name__ = name
    return DS


def _tv_split(name):
    class DS:  # iterated, chosen with split=
        def __init__(self, root, split="train", download=False):
            X, y = _vision(name, split)
            self._rows = [(x, int(v)) for x, v in zip(X, y)]

        def __len__(self):
            return len(self._rows)

        def __getitem__(self, i):
            return self._rows[i]

    DS.__name__ = name
    return DS


def install_upstream():
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        m.__path__ = []
        sys.modules[name] = m
        return m

    mod("datasets", load_dataset=fake_hf)
    mod("sklearn", datasets=None)
    mod("sklearn.datasets", fetch_openml=fake_openml)
    mod("tensorflow_datasets", load=fake_tfds)
    mod("torch_geometric")
    mod("torch_geometric.datasets", Planetoid=FakePlanetoid)
    mod("torchaudio")
    mod("torchaudio.datasets", SPEECHCOMMANDS=FakeSpeech, YESNO=FakeYesno)
    mod("torchvision")
    mod("torchvision.datasets", **{n: _tv_train(n) for n in ("MNIST", "CIFAR10", "CIFAR100")},
        **{n: _tv_split(n) for n in ("SVHN", "STL10")})


# provider -> module its extra brings
EXTRA_MODS = {"hf": "datasets", "openml": "sklearn.datasets", "tfds": "tensorflow_datasets",
              "pyg": "torch_geometric.datasets", "torchaudio": "torchaudio.datasets",
              "torchvision": "torchvision.datasets"}

# dataset id, options
VARIANTS = [
    ("toy", {}),
    ("toy:default", {"n_samples": 10, "seed": 3, "official_test": False}),
    ("hf:alpha", {}),
    ("hf:alpha/cfg1", {}),
    ("hf:beta", {"max_train_samples": 5, "seed": 7}),
    ("openml:61", {}),
    ("openml:name=foo,version=2", {"max_samples": 7, "seed": 1}),
    ("openml:77", {}),
    ("tfds:imgs/1.0", {}),
    ("tfds:notest", {}),
    ("pyg:Planetoid/Cora", {}),
    ("pyg:Planetoid/Cora", {"max_nodes": 5, "seed": 2}),
    ("torchaudio:SPEECHCOMMANDS", {}),
    ("ag_news", {}),
    ("cora", {}),
    ("toy:default", {"n_samples": 10, "seed": 4}),
    ("toy:default", {"n_samples": 10, "seed": 4, "n_classes": 5}),
    ("hf:alpha", {"class_filter": [0, 2]}),
    ("tfds:imgs/2.0", {}),
    ("torchvision:MNIST", {"max_train_samples": 4, "class_filter": [0, 1]}),
    ("stl10", {}),
    ("toy:default", {"n_samples": 1200, "n_features": 3}),  # several kernel writes per array
]


def arrays(ds, root=None):
    """What a user sees of a dataset: every array, with dtype and order, and the fingerprint."""
    def norm(a):
        import numpy as np

        if a is None:
            return None
        a = np.asarray(a)
        if a.dtype == object and root is not None:
            a = np.array([v.replace(root, "<root>") if isinstance(v, str) else v for v in a.ravel()],
                         dtype=object).reshape(a.shape)
        return a

    def sp(s):
        if s is None:
            return None
        return {"X": norm(s.X), "y": norm(s.y), "edges": norm(s.edges),
                "masks": None if s.masks is None else {str(k): norm(v) for k, v in s.masks.items()}}

    meta = ds.meta or {}
    m = {k: meta[k] for k in sorted(meta) if isinstance(meta[k], (str, int, float, bool, type(None)))}
    return {"train": sp(ds.train), "test": sp(ds.test), "meta": m}


def op_load(rt, vi, how, root="cache", heal=True):
    """how: load | force | download | dforce | nodl"""
    from modssc.data_loader import api
    from modssc.data_loader.errors import DatasetNotCachedError
    from pathlib import Path

    dsid, opts = VARIANTS[vi]
    cd = Path(rt.root) / root
    try:
        if how == "load":
            ds = api.load_dataset(dsid, cache_dir=cd, options=opts)
        elif how == "force":
            ds = api.load_dataset(dsid, cache_dir=cd, options=opts, force=True)
        elif how == "download":
            ds = api.download_dataset(dsid, cache_dir=cd, options=opts)
        elif how == "dforce":
            ds = api.download_dataset(dsid, cache_dir=cd, options=opts, force=True)
        elif how == "numpy":
            ds = api.load_dataset(dsid, cache_dir=cd, options=opts, as_numpy=True)
        else:
            ds = api.load_dataset(dsid, cache_dir=cd, options=opts, download=False)
        out = ("ok", canon(arrays(ds, str(cd))))
    except DatasetNotCachedError:
        out = ("notcached",)
    except seam.SimHang:
        raise
    except BaseException as e:
        from ..core import tb_tail

        out = ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200], tb_tail(e))
    rt.heal()
    return out


def op_seq(rt, ops):
    """Several loads in one process; each is (vi, how, root)."""
    return [op_load(rt, *o) for o in ops]


def op_maint(rt, what, arg, root="cache"):
    from modssc.data_loader import api, cache
    from pathlib import Path

    layout = cache.CacheLayout(root=(Path(rt.root) / root).resolve())
    try:
        cache.ensure_layout(layout)
        if what == "purge":
            cache.purge_fingerprint(layout, arg)
            out = ("ok", None)
        elif what == "purge_dataset":
            out = ("ok", sorted(cache.purge_dataset(layout, arg)))
        elif what == "gc":
            out = ("ok", sorted(cache.gc_keep_latest(layout)))
        elif what == "rebuild":
            cache.rebuild_index(layout)
            out = ("ok", None)
        elif what == "list":
            out = ("ok", [{k: r[k] for k in ("fingerprint", "canonical_uri", "created_at", "provider",
                                             "size_bytes", "dataset_id", "version", "modality")} for r in cache.index_list(layout)])
        elif what == "all":
            rep = api.download_all_datasets(cache_dir=layout.root, **arg)
            out = ("ok", {"downloaded": list(rep.downloaded), "skipped": list(rep.skipped_already_cached),
                          "missing": list(rep.skipped_missing_extras),
                          "extras": {k: list(v) for k, v in rep.missing_extras.items()},
                          "failed": dict(rep.failed), "summary": rep.summary(),
                          "has": rep.has_failures()})
    except seam.SimHang:
        raise
    except BaseException as e:
        out = ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200])
    rt.heal()
    return out


def op_fp(rt):
    from modssc.data_loader.services import service
    from modssc.data_loader.types import DatasetRequest

    out = []
    for dsid, opts in VARIANTS:
        ident = service._resolve_identity(DatasetRequest(id=dsid, options=opts))
        out.append((ident.fingerprint(schema_version=service.SCHEMA_VERSION), ident.canonical_uri))
    return out


class DataScenario(Scenario):
    real = ["modssc.data_loader (service, cache, lock, index, manifest, storage, providers)",
            "sqlite3 (real engine, real files)", "real file system below a scratch directory"]
    stub = ["upstream services: Hugging Face datasets, scikit-learn fetch_openml, tfds, PyG datasets, "
            "torchaudio datasets (in-memory, deterministic, may fail)", "clock", "entropy"]
    assumptions = [
        "upstream content of one dataset identity does not change between fetches",
        "a crash is a killed process: what was handed to the kernel survives, user-space buffers are lost",
        "sqlite's own atomicity is trusted (its C-level writes are not interrupted halfway)",
    ]
    _ref = None

    def preload(self):
        install_upstream()
        import modssc.data_loader.api  # noqa: F401
        import modssc.data_loader.numpy_adapter  # noqa: F401
        from modssc.data_loader import providers
        import importlib

        for v in providers.PROVIDERS.values():
            importlib.import_module(v.split(":")[0])

    def reference(self, vi):
        """Provider output for a variant: a cold, fault-free load into an empty cache."""
        import os
        import tempfile

        from ..core import Chooser, Sim

        if self._ref is None:
            self._ref = {}
        if vi not in self._ref:
            s = Sim(Chooser(replay=[]), tempfile.mkdtemp(prefix="ref"))
            try:
                p = s.spawn("ref", op_load, vi, "load")
                s.run_one(p)
                if p.result is None or p.result[0] != "ok" or p.result[1][0] != "ok":
                    raise Violation("cold-load", f"a fault-free cold load of {VARIANTS[vi]} failed: {p.result}")
                self._ref[vi] = p.result[1][1]
            finally:
                s.close()
        return self._ref[vi]

    def check_data(self, vi, res, when):
        ref = self.reference(vi)
        if res != ref:
            raise Violation("wrong-data", f"{when}: dataset {VARIANTS[vi]} differs from what its provider "
                            f"delivers: {diff(ref, res)}")

    def must(self, p, when):
        kind, val = p.result
        if kind == "hang":
            raise Violation("stuck", f"{when}: {val}")
        if kind != "ok":
            raise AssertionError(f"harness: {p.result}")
        return val


ALLFAULTS = ("crash", "torn", "enospc", "errno", "interrupt", "memory")


class D01(DataScenario):
    prop = "D01"
    rule = ("history of 1-4 cache operations (load, forced refresh, download, purge, gc, rebuild, batch "
            "download) on 1-2 dataset variants, each with up to 2 faults placed at its mutating steps; "
            "non-trivial: at least one fault or crash took effect")
    quick_runs = 1400
    thorough_runs = 60000
    must_reach = ("crash_in_refresh", "err_in_op", "nodl_after_crash_ok", "nodl_after_crash_notcached")

    def run(self, sim):
        c = sim.c
        probes = {}
        v1 = c.choose(len(VARIANTS), "variant")
        v2 = c.choose(len(VARIANTS), "variant2")
        vs = [v1, v2]
        cached = {v1: False, v2: False}  # certainly cached
        env = {"MODSSC_DATA_LOADER_MMAP_THRESHOLD": c.pick([None, "0", "200"], "mmap")}
        sim.env = env
        pre = c.choose(3, "pre")
        for v in vs[:pre]:
            p = sim.run_one(sim.spawn("pre", op_load, v, "load"))
            val = self.must(p, "first load")
            if val[0] != "ok":
                raise Violation("cold-load", f"fault-free load of {VARIANTS[v]} failed: {val[1:]}")
            self.check_data(v, val[1], "first load")
            cached[v] = True
        n = 1 + c.choose(3, "nops")
        kinds = list(ALLFAULTS)
        mask = c.choose(1 << len(kinds), "fault-mask")
        faults = [k for j, k in enumerate(kinds) if mask >> j & 1] or ["crash", "torn"]
        faulted = False
        for step in range(n):
            what = c.weighted([6, 6, 3, 3, 2, 1, 1, 1, 1], "op")
            v = vs[c.choose(2, "which")]
            how = ["load", "force", "download", "dforce"][what] if what < 4 else None
            nm = f"op{step}"
            if how:
                p = sim.spawn(nm, op_load, v, how)
                sim.trace.append(f"op {how} {VARIANTS[v]}")
            else:
                from ..scen import data as _d

                fp, uri = self.fps()[v]
                m, a = [("purge", fp), ("purge_dataset", uri), ("gc", None), ("rebuild", None),
                        ("all", {"include": ["toy", "ag_news", "cora"], "force": c.flip(1, 2), "skip_cached": c.flip(1, 2)})][what - 4]
                p = sim.spawn(nm, op_maint, m, a)
                sim.trace.append(f"op {m} {a}")
            nf = c.weighted([1, 4, 2], "nfaults")
            f0 = sum(sim.fired.values())
            sim.run_one(p, faults=faults, max_faults=nf, hint=45 if how else 30)
            hit = sum(sim.fired.values()) > f0
            faulted |= hit
            crashed = p.state == "crashed"
            val = None if crashed else self.must(p, nm)
            if crashed:
                probes["crash_in_refresh"] = probes.get("crash_in_refresh", 0) + (how in ("force", "dforce"))
            elif val[0] == "err":
                probes["err_in_op"] = 1
                if not hit:
                    raise Violation("spurious-error", f"{nm} ({how or m} {VARIANTS[v]}) failed without any "
                                    f"fault in it: {val[1:]}")
            elif how and val[0] == "ok":
                self.check_data(v, val[1], f"{nm} {how}")
            # which entries are certainly still cached
            netfail = (how and not crashed and val[0] == "err" and hit
                       and val[1] in ("ConnectionResetError", "TimeoutError"))
            if how and not crashed and val[0] == "ok":
                cached[v] = True
            elif how in ("load", "download") and cached[v]:
                pass  # a read of a cached entry must not lose it ...
                if hit:
                    cached[v] = None
            elif how and netfail and cached[v]:
                probes["netfail_refresh"] = 1  # upstream failed before anything was stored: keep the old
            elif not how and m in ("rebuild",):
                pass
            elif not how and m == "gc":
                cached = {k: None for k in cached}
            elif not how and m == "all":
                cached = {k: (x if not hit else None) for k, x in cached.items()}
            else:
                cached[v] = None
                if not how:
                    cached = {k: None for k in cached}
            # observe: without download permission, all or nothing
            for w in (sorted(set(vs)) if c.flip(3, 4, "observe") else []):
                q = sim.run_one(sim.spawn(f"look{step}", op_load, w, "nodl"))
                val = self.must(q, "cached-only load")
                if val[0] == "ok":
                    self.check_data(w, val[1], f"cached-only load after {nm}")
                    if crashed:
                        probes["nodl_after_crash_ok"] = 1
                elif val[0] == "notcached":
                    if crashed:
                        probes["nodl_after_crash_notcached"] = 1
                    if cached[w] is True:
                        raise Violation("lost-entry", f"after {nm} the cached dataset {VARIANTS[w]} is gone "
                                        "although nothing removed it")
                else:
                    raise Violation("partial-entry", f"cached-only load of {VARIANTS[w]} after {nm} neither "
                                    f"returned the dataset nor reported it as not cached: {val[1:]}")
                # an untouched read may have purged a broken entry
                cached[w] = True if val[0] == "ok" else None
        for w in sorted(set(vs)):
            for how in ("load", "nodl"):
                q = sim.run_one(sim.spawn("final", op_load, w, how))
                val = self.must(q, f"final {how}")
                if val[0] != "ok":
                    raise Violation("no-recovery", f"after the faults stopped, {how} of {VARIANTS[w]} fails: {val}")
                self.check_data(w, val[1], f"final {how}")
        return {"nontrivial": faulted, "kind": f"{n} ops", "probes": probes, "key": (v1, v2)}

    _fps = None

    def fps(self):
        if D01._fps is None:
            D01._fps = compute_fps()
        return D01._fps


def compute_fps():
    import tempfile

    from ..core import Chooser, Sim

    s = Sim(Chooser(replay=[]), tempfile.mkdtemp(prefix="fps"))
    try:
        p = s.run_one(s.spawn("fps", op_fp))
        return p.result[1]
    finally:
        s.close()




def fp_dirs(log, fp_of):
    """Mutations of processed entries, in order: (entry, process)."""
    for proc, e in log:
        if e[0] in ("openw", "write", "rename", "remove", "mkdir", "rmdir", "truncate", "link"):
            for part in e[1].split(" -> "):
                k = fp_of(part)
                if k:
                    yield k, proc


class D02(DataScenario):
    prop = "D02"
    rule = ("2-4 processes load, refresh or download the same dataset at once under a seeded preemptive "
            "schedule with stalls and clock jumps, optionally one crash; non-trivial: at least one "
            "preemption between two live processes")
    quick_runs = 1300
    thorough_runs = 60000
    must_reach = ("busy", "all_ok", "overlap")

    def run(self, sim):
        c = sim.c
        probes = {}
        v = len(VARIANTS) - 1 if c.flip(1, 4, "big") else c.choose(len(VARIANTS), "variant")
        sim.env = {"MODSSC_DATA_LOADER_MMAP_THRESHOLD": c.pick([None, "0"], "mmap")}
        race = c.flip(1, 3, "refresh-race")  # readers caught in the middle of a read by a refresh
        if race and c.flip(1, 2, "big2"):
            v = len(VARIANTS) - 1
        warm = race or c.flip(1, 3, "warm")
        if warm:
            p = sim.run_one(sim.spawn("pre", op_load, v, "load"))
            if self.must(p, "first load")[0] != "ok":
                raise Violation("cold-load", f"{p.result}")
        n = 2 + c.weighted([6, 2, 1] if race else [4, 3, 1], "procs")
        hows = []
        procs = []
        for i in range(n):
            h = ["load", "download", "force", "dforce"][c.weighted([4, 2, 2, 1], "how")]
            if race and i < 2:
                h = [["load", "download"], ["force", "dforce"]][i][c.choose(2, "how2")]
            hows.append(h)
            procs.append(sim.spawn(f"P{i}", op_load, v, h, skew=c.pick([0.0, 0.0, 7200.0, -7200.0], "skew")))
        sim.trace.append(f"{'warm' if warm else 'cold'} {VARIANTS[v]}: " + ", ".join(f"P{i} {h}" for i, h in enumerate(hows)))
        crash = c.flip(1, 4, "crash")
        mark = len(sim.log)
        if race:
            sim.advance(procs[0], 1 + c.choose(6, "reader-at"), ("openr", "read"))
            if c.flip(1, 2, "writer-first"):
                pend = procs[0].pending[1] if procs[0].pending else ""
                how = c.choose(3, "writer-at")
                until = [("openw", "write", "remove", "rmdir"), pend, ("write",)][how]
                sim.advance(procs[1], 1 + c.choose(14 if how != 1 else 5, "writer-n"), until)
        sim.run_many(procs, faults=("crash", "torn"), max_faults=1 if crash else 0,
                     max_switch=c.pick([6, 2, 12, 25, 3], "switches"), hint=70, stalls_left=c.choose(3, "stalls"))
        self.check_exclusive(sim, mark, v)
        if not any(p.state == "crashed" for p in procs):
            allowed = sum(h in ("force", "dforce") for h in hows) + (0 if warm else 1)
            got = Counter(e[1][12:] for _, e in sim.log[mark:] if e[0] == "ext" and e[1].startswith("fetch-begin "))
            for tag, k in got.items():
                if k > allowed:
                    raise Violation("fetched-again", f"{tag} was fetched {k} times by {hows} ({'warm' if warm else 'cold'} cache)")
        force = any(h in ("force", "dforce") for h in hows)
        crashed = any(p.state == "crashed" for p in procs)
        oks = 0
        for p, h in zip(procs, hows):
            if p.state == "crashed":
                continue
            val = self.must(p, f"{p.name} {h}")
            if val[0] == "ok":
                oks += 1
                self.check_data(v, val[1], f"{p.name} {h} (concurrent)")
                continue
            busy = val[0] == "err" and val[1] in ("FileExistsError", "BlockingIOError", "TimeoutError", "LockTimeout")
            if busy:
                probes["busy"] = 1
                if warm and not force:
                    raise Violation("spurious-busy", f"{p.name} {h} of a cached dataset was refused: {val}")
                continue
            if h in ("force", "dforce"):
                raise Violation("writer-disturbed", f"{p.name} {h} failed although it was the only writer: {val}")
            if not force and not crashed:
                raise Violation("reader-disturbed", f"{p.name} {h} failed although nothing was being replaced: {val}")
            probes["read_during_refresh"] = 1
        if not oks and not crashed:
            raise Violation("nobody-succeeds", f"none of {n} concurrent loads succeeded: {[p.result for p in procs]}")
        if oks == n:
            probes["all_ok"] = 1
        if sim.switches:
            probes["overlap"] = 1
        if not crashed:
            q = sim.run_one(sim.spawn("after", op_load, v, "nodl"))
            val = self.must(q, "cached-only load")
            if val[0] != "ok":
                raise Violation("entry-broken", f"after concurrent loads ({oks} succeeded) the dataset is not cached: {val}")
            self.check_data(v, val[1], "cached-only load after concurrent loads")
        q = sim.run_one(sim.spawn("final", op_load, v, "load"))
        val = self.must(q, "final load")
        if val[0] != "ok":
            raise Violation("no-recovery", f"after concurrent loads, a load fails: {val}")
        self.check_data(v, val[1], "final load")
        return {"nontrivial": sim.switches > 0, "kind": f"{n} procs", "probes": probes, "key": v}

    def check_exclusive(self, sim, mark, v):
        """At most one process at a time fetches or stores one entry."""
        fetching = {}
        dead = {p.name for p in sim.procs if p.state == "crashed"}
        last = {}
        for i in range(mark, len(sim.log)):
            last[sim.log[i][0]] = i
        for i in range(mark, len(sim.log)):
            proc, e = sim.log[i]
            if e[0] == "ext" and e[1].startswith("fetch-begin "):
                tag = e[1][12:]
                for q, (t, _) in list(fetching.items()):
                    if q in dead and last[q] < i:
                        del fetching[q]
                        continue
                    if q != proc and t == tag:
                        raise Violation("double-download", f"{proc} starts downloading {tag} while {q} is still downloading it")
                fetching[proc] = (tag, i)
            elif e[0] == "fetch-end":
                fetching.pop(proc, None)
        fp = D01.fps(self)[v][0]
        seq = []
        pre = f"cache/processed/{fp}"
        for k, proc in fp_dirs(sim.log[mark:], lambda s: fp if s == pre or s.startswith(pre + "/") else None):
            if not seq or seq[-1] != proc:
                seq.append(proc)
        if len(seq) != len(set(seq)):
            raise Violation("interleaved-writes", f"stores into one entry interleave: {seq}")


class D03(DataScenario):
    prop = "D03"
    rule = ("one or two processes load or refresh a dataset, at least one is killed or hit by an error at a "
            "chosen step (inside the locked section in most runs) while others contend; afterwards three "
            "fresh processes load it one after another; non-trivial: a kill or error took effect")
    quick_runs = 900
    thorough_runs = 40000
    must_reach = ("killed_in_lock",)

    def run(self, sim):
        c = sim.c
        probes = {}
        v = c.choose(len(VARIANTS), "variant")
        if c.flip(1, 3, "warm"):
            sim.run_one(sim.spawn("pre", op_load, v, "load"))
        rounds = 1 + c.choose(3, "rounds")
        for r in range(rounds):
            n = 1 + c.choose(3, "procs")
            procs = []
            for i in range(n):
                h = ["load", "force", "download", "dforce"][c.choose(4, "how")]
                procs.append(sim.spawn(f"R{r}P{i}", op_load, v, h))
            sim.trace.append(f"round {r}: {n} processes")
            if n == 1:
                sim.run_one(procs[0], faults=("crash", "torn", "interrupt", "errno", "memory"), max_faults=1, hint=45)
            else:
                sim.run_many(procs, faults=("crash", "torn", "interrupt", "crash"), max_faults=n, max_switch=10,
                             hint=60, stalls_left=c.choose(2, "stalls"), fault_den=2)
            for p in procs:
                if p.state == "crashed":
                    probes["killed_in_lock"] = 1
                else:
                    val = self.must(p, p.name)
                    if val[0] == "ok":
                        self.check_data(v, val[1], p.name)
            how = ["load", "download", "force"][c.choose(3, "after-how")]
            if c.flip(1, 2, "later"):
                sim.now += c.pick([1.0, 600.0, 1e5, 1e7], "dt")
            q = sim.run_one(sim.spawn(f"after{r}", op_load, v, how))
            val = self.must(q, f"{how} after the holder died")
            if val[0] != "ok":
                raise Violation("lock-not-released", f"with no other process alive, {how} of {VARIANTS[v]} fails: {val}")
            self.check_data(v, val[1], f"{how} after the holder died")
        return {"nontrivial": bool(sim.fired), "kind": f"{rounds} rounds", "probes": probes, "key": v}


class D04(DataScenario):
    prop = "D04"
    rule = ("histories of 3-9 operations (load, refresh, purge by entry, purge by dataset, keep-latest "
            "collection, index rebuild, index loss, concurrent loads) over up to 5 variants of 2-3 datasets, "
            "with clock jumps and optional crashes/errors, compared with a set model after every step; "
            "non-trivial: at least two variants were cached at some point")
    quick_runs = 700
    thorough_runs = 30000
    must_reach = ("gc_deleted", "rebuild_after_fault", "index_lost", "concurrent")

    def load(self, sim, v, how, name, **k):
        return sim.run_one(sim.spawn(name, op_load, v, how, skew=self.skew), **k)

    def listing(self, sim):
        p = sim.run_one(sim.spawn("list", op_maint, "list", None, skew=self.skew))
        val = self.must(p, "list")
        if val[0] != "ok":
            raise Violation("list-fails", f"listing the index fails: {val}")
        return {r["fingerprint"]: r for r in val[1]}, [r["fingerprint"] for r in val[1]]

    def check_model(self, sim, model, fps, when, loads=True):
        rows, order = self.listing(sim)
        want = {fps[v][0] for v in model}
        if set(rows) != want:
            nm = {fps[v][0]: VARIANTS[v] for v in range(len(VARIANTS))}
            raise Violation("index-mismatch", f"{when}: index lists {[nm.get(f, f) for f in sorted(rows)]}, cached are "
                            f"{[nm[f] for f in sorted(want)]}")
        if len(order) != len(set(order)):
            raise Violation("index-duplicate", f"{when}: duplicate rows")
        import datetime
        import os

        ts = [datetime.datetime.fromisoformat(rows[f]["created_at"]) for f in order]
        if ts != sorted(ts, reverse=True):
            raise Violation("index-order", f"{when}: listing is not newest first: {ts}")
        for v in model:
            r = rows[fps[v][0]]
            if r["canonical_uri"] != fps[v][1]:
                raise Violation("index-identity", f"{when}: {r} for {VARIANTS[v]}")
            if v in self.when:
                t = datetime.datetime.fromisoformat(r["created_at"]).timestamp() - seam.EPOCH
                lo, hi = self.when[v]
                if not lo - 0.01 <= t <= hi + 0.01:
                    raise Violation("index-date", f"{when}: {VARIANTS[v]} was stored between {lo:.3f} and {hi:.3f} on its "
                                    f"clock, the index says {t:.3f}")
        if loads:
            for v in sorted(self.universe):
                q = self.load(sim, v, "nodl", "probe")
                val = self.must(q, "cached-only load")
                if v in model:
                    if val[0] != "ok":
                        raise Violation("listed-not-loadable", f"{when}: {VARIANTS[v]} is listed but cannot be loaded: {val}")
                    self.check_data(v, val[1], when)
                elif val[0] != "notcached":
                    raise Violation("removed-still-there", f"{when}: {VARIANTS[v]} should be gone but loads: {val[:1]}")
        return rows

    def run(self, sim):
        c = sim.c
        probes = {}
        fps = D01.fps(self)
        groups = [[0, 1, 15, 16], [2, 17], [3], [5], [8, 18], [10, 11], [4], [6]]
        self.universe = set()
        for _ in range(2 + c.choose(2, "ngroups")):
            g = groups[c.choose(len(groups), "group")]
            self.universe |= set(g[: 1 + c.choose(len(g), "take")])
        uni = sorted(self.universe)
        model = set()
        self.when = {}  # variant -> interval of its own clock in which it was last stored
        self.skew = 0.0
        peak = 0
        n = 3 + c.choose(6, "nops")
        faulty_run = c.flip(1, 2, "faulty")
        for step in range(n):
            if c.flip(1, 3, "skew?"):
                self.skew += c.pick([10.0, 5000.0, -5000.0, -3e6, 3e6, -0.25], "skew")
                sim.fired["clock_jump"] += 1
            op = c.weighted([8, 3, 2, 2, 3, 2, 1, 2], "op")
            v = c.pick(uni, "v")
            fk = {}
            f0 = sum(v_ for k_, v_ in sim.fired.items() if k_ not in ("clock_jump", "index_lost"))
            if faulty_run and c.flip(1, 3, "fault-op"):
                fk = dict(faults=("crash", "torn", "errno", "enospc", "interrupt"), max_faults=1, hint=40)
            before = set(model)
            rows0 = None
            t0 = sim.now + self.skew
            if op in (0, 1):
                how = ["load", "force"][op]
                p = self.load(sim, v, how, f"s{step}", **fk)
                sim.trace.append(f"step {step}: {how} {VARIANTS[v]}")
                model.add(v)
            elif op == 2:
                sim.trace.append(f"step {step}: purge {VARIANTS[v]}")
                p = sim.run_one(sim.spawn(f"s{step}", op_maint, "purge", fps[v][0], skew=self.skew), **fk)
                model.discard(v)
            elif op == 3:
                sim.trace.append(f"step {step}: purge dataset {fps[v][1]}")
                p = sim.run_one(sim.spawn(f"s{step}", op_maint, "purge_dataset", fps[v][1], skew=self.skew), **fk)
                gone = {w for w in model if fps[w][1] == fps[v][1]}
                model -= gone
                want = sorted(fps[w][0] for w in gone)
            elif op == 4:
                sim.trace.append(f"step {step}: keep latest")
                rows0, _ = self.listing(sim)
                import datetime

                best = {}
                for f, r in rows0.items():
                    t = datetime.datetime.fromisoformat(r["created_at"])
                    u = r["canonical_uri"]
                    if u not in best or t > best[u][0]:
                        best[u] = (t, f)
                keep = {f for _, f in best.values()}
                p = sim.run_one(sim.spawn(f"s{step}", op_maint, "gc", None, skew=self.skew), **fk)
                gone = {w for w in model if fps[w][0] not in keep}
                model -= gone
                want = sorted(fps[w][0] for w in gone)
                if gone:
                    probes["gc_deleted"] = 1
            elif op == 5:
                sim.trace.append(f"step {step}: rebuild index")
                p = sim.run_one(sim.spawn(f"s{step}", op_maint, "rebuild", None, skew=self.skew), **fk)
            elif op == 6:
                sim.trace.append(f"step {step}: the index file is lost, then rebuilt")
                import os

                for f in os.listdir(os.path.join(sim.root, "cache")) if os.path.isdir(os.path.join(sim.root, "cache")) else []:
                    if "sqlite" in f:
                        os.unlink(os.path.join(sim.root, "cache", f))
                sim.fired["index_lost"] += 1
                probes["index_lost"] = 1
                p = sim.run_one(sim.spawn(f"s{step}", op_maint, "rebuild", None, skew=self.skew), **fk)
            else:
                ws = sorted({c.pick(uni, "w") for _ in range(3)})
                sim.trace.append(f"step {step}: concurrent loads of {[VARIANTS[w] for w in ws]}")
                ps = [sim.spawn(f"s{step}.{w}", op_load, w, "load", skew=self.skew) for w in ws]
                if c.flip(1, 2, "with-rebuild"):
                    ps.append(sim.spawn(f"s{step}.r", op_maint, "rebuild", None))
                sim.run_many(ps, max_switch=12, hint=50)
                for q in ps:
                    val = self.must(q, q.name)
                    if val[0] != "ok":
                        raise Violation("concurrent-failed", f"loads of different datasets disturb each other: {val}")
                for w in set(ws) - model:
                    self.when[w] = (t0, sim.now + self.skew)
                model |= set(ws)
                probes["concurrent"] = 1
                p = None
            hit = sum(v_ for k_, v_ in sim.fired.items() if k_ not in ("clock_jump", "index_lost")) > f0
            if p is not None and not hit:
                val = self.must(p, f"step {step}")
                if val[0] != "ok":
                    raise Violation("op-failed", f"step {step} failed without a fault: {val}")
                if op in (3, 4) and val[1] != want:
                    raise Violation("wrong-removed", f"step {step}: reported {val[1]} as removed, expected {want}")
            if op == 1 or (op == 0 and v not in before):
                self.when[v] = (t0, sim.now + self.skew)
            if hit:
                for w in uni if op not in (0, 1, 2) else [v]:
                    self.when.pop(w, None)
                # the interrupted operation may or may not have happened; a rebuild must make the index exact again
                probes["rebuild_after_fault"] = 1
                q = sim.run_one(sim.spawn(f"rb{step}", op_maint, "rebuild", None, skew=self.skew))
                if self.must(q, "rebuild")[0] != "ok":
                    raise Violation("rebuild-fails", f"rebuild after an interrupted operation fails: {q.result}")
                touched = {v} if op in (0, 1, 2) else (before - model if op in (3, 4) else set())
                model = set()
                for w in uni:
                    q = self.load(sim, w, "nodl", "probe")
                    val = self.must(q, "cached-only load")
                    if val[0] == "ok":
                        self.check_data(w, val[1], f"after interrupted step {step}")
                        model.add(w)
                        if w not in before and w not in touched:
                            raise Violation("resurrected", f"{VARIANTS[w]} reappeared after step {step}")
                    elif val[0] == "err":
                        raise Violation("partial-entry", f"after interrupted step {step}, {VARIANTS[w]}: {val}")
                    elif w in before and w not in touched:
                        raise Violation("collateral-loss", f"interrupted step {step} removed {VARIANTS[w]}, which it "
                                        "was not asked to touch")
            peak = max(peak, len(model))
            self.check_model(sim, model, fps, f"after step {step}", loads=(step == n - 1 or c.flip(1, 3, "full")))
        return {"nontrivial": peak >= 2, "kind": f"{n} ops", "probes": probes, "key": tuple(uni)}


def op_pairs(rt, reqs):
    """For every request: load into the shared cache and into an empty one of its own."""
    from pathlib import Path

    from modssc.data_loader import api

    out = []
    for i, (dsid, opts, how) in enumerate(reqs):
        row = []
        for root in ("shared", f"iso/{rt.vpid}_{i}"):
            cd = Path(rt.root) / root
            try:
                k = {"force": True} if how == "force" else {}
                if how == "numpy":
                    k["as_numpy"] = True
                fn = api.download_dataset if how == "download" else api.load_dataset
                row.append(("ok", canon(arrays(fn(dsid, cache_dir=cd, options=opts, **k), str(cd)))))
            except Exception as e:
                row.append(("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200]))
        out.append(row)
    return out


def upstream_expected(dsid, opts):
    """What upstream delivers, computed without the code under test (unfiltered requests only)."""
    import numpy as np

    if any(k in opts for k in ("class_filter", "max_train_samples", "max_test_samples", "max_samples",
                               "max_nodes", "seed", "prefer_test_split")):
        return None
    if dsid.startswith("hf:"):
        name, _, cfg = dsid[3:].partition("/")
        d = fake_hf(name, cfg or opts.get("config") or None)
        te = "test" if "test" in d else "validation"
        tc, lc = opts.get("text_column", "text"), opts.get("label_column", "label")
        f = lambda s: (np.array(d[s][tc], dtype=object), np.array(d[s][lc]))
        return f("train"), f(te)
    if dsid.startswith("openml:") and dsid[7:].isdigit():
        X, y = fake_openml(data_id=int(dsid[7:]), version=opts.get("version"))
        return (X, y), None
    if dsid.startswith("tfds:"):
        name = dsid[5:].replace("/", ":")
        out = []
        for s in ("train", "test"):
            try:
                it = fake_tfds(name, s)
            except ValueError:
                out.append(None)
                continue
            out.append((np.asarray([a for a, _ in it], dtype=object), np.asarray([b for _, b in it])))
        return out[0], out[1]
    if dsid == "pyg:Planetoid/Cora":
        d = FakePlanetoid("/", "Cora").data
        return (d.x, d.y, d.edge_index, {"train": d.train_mask, "val": d.val_mask, "test": d.test_mask}), None
    return None


class D05(DataScenario):
    prop = "D05"
    rule = ("1-3 processes, each loading a random sequence of 2-6 requests (18 dataset references x random "
            "options) from one shared cache, cold, warm, refreshed, as arrays, memory-mapped or after the "
            "cache was moved; every result is compared with a load of the same request into an empty cache "
            "and, for unfiltered requests, with the upstream data; non-trivial: two requests differ only in "
            "options or a request is served twice")
    quick_runs = 700
    thorough_runs = 30000
    must_reach = ("warm_hit", "moved", "upstream_compared", "sibling_options")

    def request(self, c):
        fam = c.choose(7, "family")
        o = {}

        def opt(k, vals):
            if c.flip(1, 3, k):
                o[k] = c.pick(vals, k)

        if fam == 0:
            opt("n_samples", [10, 11, 64])
            opt("n_features", [2, 3])
            opt("n_classes", [2, 4])
            opt("seed", [0, 1, 2])
            opt("official_test", [True, False])
            opt("test_size", [0.25, 0.5])
            return c.pick(["toy:default", "toy"], "ref"), o
        if fam == 1:
            opt("text_column", ["text", "title"])
            opt("label_column", ["label", "stars"])
            opt("prefer_test_split", [True, False])
            opt("class_filter", [[0, 1], [2], 1])
            opt("max_train_samples", [3, 7])
            opt("max_test_samples", [2, 4])
            opt("seed", [0, 5])
            opt("config", ["c1", "c2"])
            return c.pick(["hf:alpha", "hf:alpha/cfg1", "hf:beta", "hf:gamma/x", "imdb"], "ref"), o
        if fam == 2:
            opt("class_filter", [["c0"], ["c1", "c2"]])
            opt("max_samples", [3, 5])
            opt("seed", [0, 5])
            opt("version", [1, 2])
            return c.pick(["openml:61", "openml:77", "openml:name=foo,version=2", "openml:name=foo,version=3", "iris"], "ref"), o
        if fam == 3:
            return c.pick(["tfds:imgs/1.0", "tfds:imgs/2.0", "tfds:imgs", "tfds:notest"], "ref"), o
        if fam == 4:
            opt("max_nodes", [4, 6])
            opt("class_filter", [[0, 1], [2]])
            opt("seed", [0, 5])
            return c.pick(["pyg:Planetoid/Cora", "pyg:Planetoid/PubMed", "cora"], "ref"), o
        if fam == 5:
            opt("max_train_samples", [3, 4])
            opt("max_test_samples", [1, 2])
            opt("class_filter", [[0], [1, 2]])
            opt("seed", [0, 5])
            return c.pick(["torchvision:MNIST", "mnist", "torchvision:STL10", "cifar10"], "ref"), o
        opt("max_train_samples", [3, 4])
        opt("max_test_samples", [1, 2])
        opt("class_filter", [["yes"], ["no", "up"]])
        opt("seed", [0, 5])
        return c.pick(["torchaudio:SPEECHCOMMANDS", "speechcommands"], "ref"), o

    def run(self, sim):
        import os
        import shutil

        c = sim.c
        probes = {}
        np_ = 1 + c.choose(3, "procs")
        seen = []
        for k in range(np_):
            reqs = []
            for j in range(2 + c.choose(4, "nreq")):
                if seen and c.flip(1, 3, "again"):
                    r = c.pick(seen, "which")
                    probes["warm_hit"] = 1
                else:
                    r = self.request(c)
                if any(s[0] == r[0] and s[1] != r[1] for s in seen):
                    probes["sibling_options"] = 1
                seen.append(r)
                reqs.append((*r, ["load", "load", "numpy", "force", "download"][c.choose(5, "how")]))
            env = {"MODSSC_DATA_LOADER_MMAP_THRESHOLD": c.pick([None, "0", "150"], "mmap")}
            p = sim.spawn(f"P{k}", op_pairs, reqs, env=env, skew=c.pick([0.0, 4e4, -4e4], "skew"))
            sim.run_one(p)
            res = self.must(p, p.name)
            for (dsid, opts, how), (a, b) in zip(reqs, res):
                sim.trace.append(f"P{k} {how} {dsid} {opts}: {a[0]}")
                if a != b:
                    d = diff(a[1], b[1]) if a[0] == b[0] == "ok" else (a[:3], b[:3])
                    raise Violation("not-the-request", f"{how} of {dsid} {opts} from the shared cache differs from a "
                                    f"load into an empty cache: {d}")
                if a[0] == "ok":
                    exp = upstream_expected(dsid, opts)
                    if exp is not None:
                        probes["upstream_compared"] = 1
                        self.check_upstream(dsid, opts, exp, a[1])
            if c.flip(1, 4, "move"):
                probes["moved"] = 1
                dst = os.path.join(sim.root, f"moved{k}")
                os.rename(os.path.join(sim.root, "shared"), dst)
                os.rename(dst, os.path.join(sim.root, "tmpmv"))
                # used from its new place: a symlink-free rename of the whole tree
                os.makedirs(os.path.join(sim.root, "elsewhere", str(k)), exist_ok=True)
                new = os.path.join(sim.root, "elsewhere", str(k), "c")
                os.rename(os.path.join(sim.root, "tmpmv"), new)
                q = sim.run_one(sim.spawn(f"M{k}", op_moved, [(d, o) for d, o, _ in reqs], f"elsewhere/{k}/c"))
                for (dsid, opts, _), x, (a, b) in zip(reqs, self.must(q, q.name), res):
                    if x != b:
                        raise Violation("moved-cache", f"{dsid} {opts} from the moved cache: {diff(x[1], b[1]) if x[0] == 'ok' else x}")
                os.rename(new, os.path.join(sim.root, "shared"))
        return {"nontrivial": bool(probes.get("warm_hit") or probes.get("sibling_options")),
                "kind": f"{np_} procs", "probes": probes}

    def check_upstream(self, dsid, opts, exp, got):
        m = dict(got[1])
        for name, e in (("train", exp[0]), ("test", exp[1])):
            g = m[name]
            if e is None:
                if g is not None:
                    raise Violation("wrong-data", f"{dsid} {opts}: unexpected {name} split")
                continue
            want = canon({"X": e[0], "y": e[1], "edges": e[2] if len(e) > 2 else None,
                          "masks": e[3] if len(e) > 3 else None})
            if g != want:
                raise Violation("wrong-data", f"{dsid} {opts} {name}: {diff(want, g)}")


def op_moved(rt, reqs, root):
    from pathlib import Path

    from modssc.data_loader import api

    out = []
    cd = Path(rt.root) / root
    for dsid, opts in reqs:
        try:
            out.append(("ok", canon(arrays(api.load_dataset(dsid, cache_dir=cd, options=opts, download=False), str(cd)))))
        except Exception as e:
            out.append(("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200]))
    return out


def op_batch(rt, missing, kw):
    for x in missing:
        sys.modules[EXTRA_MODS[x]] = None
    return op_maint(rt, "all", kw)


def op_catalog():
    from modssc.data_loader.catalog import DATASET_CATALOG

    return {k: (s.provider, s.modality, s.required_extra) for k, s in DATASET_CATALOG.items()}


class D06(DataScenario):
    prop = "D06"
    rule = ("a batch download over a random selection of the curated catalog (include / exclude / modality "
            "filters) with some optional extras missing, some datasets already cached, and network or disk "
            "errors or a crash at chosen steps, then repeated; non-trivial: at least one dataset failed, was "
            "skipped or lacked its extra")
    quick_runs = 500
    thorough_runs = 20000
    must_reach = ("failed", "missing", "skipped", "crashed_then_resumed", "raised_missing")
    _cat = None

    def run(self, sim):
        c = sim.c
        probes = {}
        if self._cat is None:
            D06._cat = op_catalog()
        cat = {k: v for k, v in sorted(self._cat.items())}
        keys = list(cat)
        inc = sorted({c.pick(keys, "key") for _ in range(1 + c.choose(7, "ninc"))})
        if c.flip(1, 10, "everything"):
            inc = keys
        exc = [k for k in inc if c.flip(1, 6, "exc")]
        mods = None
        if c.flip(1, 4, "mods"):
            mods = sorted({c.pick(["text", "tabular", "graph", "audio", "vision"], "mod") for _ in range(2)})
        sel = sorted(k for k in inc if k not in exc and (mods is None or cat[k][1] in mods))
        missing = [x for x in EXTRA_MODS if c.flip(1, 4, "missing-" + x)]
        lacks = {k for k in sel if cat[k][0] in missing}
        pre = [k for k in sel if k not in lacks and c.flip(1, 4, "pre")]
        for k in pre:
            p = sim.run_one(sim.spawn("pre", op_key, k, True))
            if self.must(p, "pre")[0] != "ok":
                raise Violation("cold-load", f"{k}: {p.result}")
        kw = {"include": inc, "exclude": exc or None, "modalities": mods,
              "skip_cached": c.flip(1, 2, "skip"), "force": c.flip(1, 4, "force"),
              "ignore_missing_extras": not c.flip(1, 5, "strict")}
        rounds = 1 + c.choose(2, "rounds")
        ok_cached = set(pre)
        for r in range(rounds):
            faults, nf = [((), 0), (("errno",), 2), (("errno", "enospc", "errno"), 1), (("crash", "torn"), 1)][c.choose(4, "mix")]
            f0 = sum(sim.fired.values())
            p = sim.run_one(sim.spawn(f"batch{r}", op_batch, missing, kw), faults=faults, max_faults=nf, hint=30 * max(1, len(sel)))
            hit = sum(sim.fired.values()) - f0
            if p.state == "crashed":
                probes["crashed_then_resumed"] = 1
                ok_cached = set()
                continue
            val = self.must(p, "batch")
            if val[0] == "err":
                if not kw["ignore_missing_extras"] and lacks and val[1] == "OptionalDependencyError":
                    probes["raised_missing"] = 1
                    ok_cached = set()
                    continue
                if hit:
                    ok_cached = set()
                    continue  # an error outside any single dataset (e.g. preparing the cache directory)
                raise Violation("batch-raises", f"a batch download raised: {val}")
            rep = val[1]
            b = [rep["downloaded"], rep["skipped"], rep["missing"], sorted(rep["failed"])]
            allk = [k for x in b for k in x]
            if sorted(allk) != sel:
                raise Violation("accounting", f"selected {sel}, reported {b}")
            if sorted(k for ks in rep["extras"].values() for k in ks) != sorted(rep["missing"]):
                raise Violation("accounting-extras", f"{rep['extras']} vs {rep['missing']}")
            for ex, ks in rep["extras"].items():
                for k in ks:
                    if cat[k][2] != ex:
                        raise Violation("accounting-extras", f"{k} listed under extra {ex}, needs {cat[k][2]}")
            for k in rep["missing"]:
                probes["missing"] = 1
                if k not in lacks:
                    raise Violation("accounting", f"{k} reported as lacking its extra, which is installed")
            for k in lacks:
                if k not in rep["missing"] and not (k in rep["skipped"] or hit):
                    raise Violation("accounting", f"{k} lacks its extra but is reported elsewhere: {b}")
            if len(rep["failed"]) > hit:
                raise Violation("failure-spreads", f"{len(rep['failed'])} datasets failed after {hit} faults: {rep['failed']}")
            if rep["failed"]:
                probes["failed"] = 1
            if rep["has"] != bool(rep["failed"]):
                raise Violation("accounting", "has_failures disagrees with the failed datasets")
            want = (f"Downloaded: {len(b[0])}\nSkipped (already cached): {len(b[1])}\nSkipped (missing extras): {len(b[2])}\n"
                    f"Failed: {len(b[3])}")
            if rep["summary"] != want:
                raise Violation("summary", f"{rep['summary']!r} != {want!r}")
            if kw["skip_cached"]:
                for k in ok_cached:
                    if k in sel and k not in rep["skipped"] and k not in rep["failed"]:
                        raise Violation("accounting", f"{k} was cached but not skipped")
            if rep["skipped"]:
                probes["skipped"] = 1
                if not kw["skip_cached"]:
                    raise Violation("accounting", "skipped although asked not to skip")
            for k in rep["downloaded"] + rep["skipped"]:
                q = sim.run_one(sim.spawn("look", op_key, k, False))
                v2 = self.must(q, "look")
                if v2[0] != "ok":
                    raise Violation("reported-not-cached", f"{k} is reported as available but a cached-only load gives {v2}")
                ref = self.keyref(k)
                if v2[1] != ref:
                    raise Violation("wrong-data", f"{k}: {diff(ref, v2[1])}")
            ok_cached = set(rep["downloaded"]) | set(rep["skipped"])
        return {"nontrivial": bool(probes), "kind": f"{len(sel)} keys", "probes": probes, "key": tuple(sel)}

    _keyref = None

    def keyref(self, k):
        import tempfile

        from ..core import Chooser, Sim

        if self._keyref is None:
            D06._keyref = {}
        if k not in self._keyref:
            s = Sim(Chooser(replay=[]), tempfile.mkdtemp(prefix="kr"))
            try:
                p = s.run_one(s.spawn("ref", op_key, k, True))
                self._keyref[k] = p.result[1][1]
            finally:
                s.close()
        return self._keyref[k]


def op_key(rt, key, download):
    from pathlib import Path

    from modssc.data_loader import api

    cd = Path(rt.root) / "cache"
    try:
        return ("ok", canon(arrays(api.load_dataset(key, cache_dir=cd, download=download), str(cd))))
    except Exception as e:
        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200])


SCENARIOS = {"D01": D01(), "D02": D02(), "D03": D03(), "D04": D04(), "D05": D05(), "D06": D06()}
