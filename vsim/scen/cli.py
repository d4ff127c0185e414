"""The command line: what a command says, and what it leaves behind."""

from __future__ import annotations

import hashlib
import json
import os
import sys

import numpy as np

from .. import seam
from ..canon import canon, diff
from ..core import HarnessError, Violation, tb_tail
from . import Scenario
from .data import EXTRA_MODS, arrays, fake_openml, install_upstream

KEYS = {  # dataset: provider
    "toy": "toy", "toy:default": "toy", "hf:alpha": "hf", "hf:alpha/cfg1": "hf", "openml:61": "openml", "openml:77": "openml", "tfds:imgs/1.0": "tfds",
    "tfds:notest": "tfds", "pyg:Planetoid/Cora": "pyg", "ag_news": "hf", "cora": "pyg", "stl10": "torchvision", "torchaudio:YESNO": "torchaudio",
}
NUMERIC = ["toy", "toy:default", "openml:61", "openml:77"]  # with feature matrices
GRAPHY = ["toy", "toy:default", "cora", "pyg:Planetoid/Cora"]
BATCH = ["ag_news", "cora", "stl10", "toy"]
PLANS = [
    {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.2}, "labeling": {"mode": "fraction", "value": 0.5}},
    {"split": {"kind": "kfold", "k": 3, "fold": 1}, "labeling": {"mode": "per_class", "value": 1}},
    {"split": {"kind": "holdout", "stratify": False, "val_fraction": 0.3}, "labeling": {"mode": "count", "value": 3}},
    {"split": {"kind": "holdout", "stratify": False}, "labeling": {"mode": "fraction", "value": 0.4}, "policy": {"respect_official_test": False}},
    {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.2}, "labeling": {"mode": "fraction", "fixed_indices": [0, 1, 4]}},  # not all in train
    {"split": {"kind": "kfold", "k": 3, "fold": 4}, "labeling": {"mode": "fraction", "value": 0.5}},
    {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.2}, "labeling": {"mode": "fraction", "value": 0.5},
     "imbalance": {"kind": "long_tail", "apply_to": "train", "alpha": 0.5}},
]
PREP = [
    {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "tabular.standard_scaler"}]},
    {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.pca", "params": {"n_components": 2}}]},
    {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.random_projection", "params": {"n_components": 2}}]},
    {"output_key": "features.X", "steps": [{"id": "labels.encode"}, {"id": "core.ensure_2d"}, {"id": "core.cast_dtype", "params": {"dtype": "float32"}}]},
]
METRICS = ["accuracy", "macro_f1", "balanced_accuracy"]


def op_cli(rt, args, missing=()):
    from typer.testing import CliRunner

    from modssc.cli.app import app
    from modssc.data_loader.catalog import DATASET_CATALOG

    for x in missing:
        sys.modules[EXTRA_MODS[x]] = None
    if "--all" in args:
        for k in [k for k in DATASET_CATALOG if k not in BATCH]:
            del DATASET_CATALOG[k]
    r = CliRunner().invoke(app, args)
    if isinstance(r.exception, seam.SimHang):
        raise r.exception
    rt.heal()
    exc = None if r.exception is None or isinstance(r.exception, SystemExit) else (type(r.exception).__name__, str(r.exception)[:200], tb_tail(r.exception))
    return r.exit_code, r.stdout, r.stderr[-600:], exc


def op_have(rt, key, cd):
    from pathlib import Path

    from modssc.data_loader import api
    from modssc.data_loader.errors import DatasetNotCachedError

    try:
        return ("ok", canon(arrays(api.load_dataset(key, cache_dir=Path(cd), download=False), cd)))
    except DatasetNotCachedError:
        return ("notcached",)
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:200])


def op_index(rt, cd):
    from pathlib import Path

    from modssc.data_loader import api

    return sorted(r["fingerprint"] for r in api.cache.index_list(api._layout(Path(cd))))


def op_ids(rt, keys):
    from modssc.data_loader.services import service
    from modssc.data_loader.types import DatasetRequest

    out = {}
    for k in keys:
        i = service._resolve_identity(DatasetRequest(id=k))
        out[k] = (i.fingerprint(schema_version=service.SCHEMA_VERSION), i.canonical_uri)
    return out


def op_split(rt, path):
    from pathlib import Path

    from modssc.sampling.api import load_split

    from .samp import undated

    try:
        r = load_split(Path(path))
        return ("ok", undated(r), r.split_fingerprint, json.loads(json.dumps(r.stats)), json.loads(json.dumps(r.plan)))
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:200])


def op_ref(rt, what, key, arg, seed):
    """What the library itself answers, without caches, on a fresh copy of the dataset."""
    from pathlib import Path

    from modssc.data_loader import load_dataset

    ds = load_dataset(key, cache_dir=Path(rt.root) / "ref")
    if what == "data":
        return canon(arrays(ds, os.path.join(rt.root, "ref")))
    if what == "sample":
        from modssc.sampling.api import sample
        from modssc.sampling.plan import SamplingPlan

        from .samp import undated

        try:
            r, _ = sample(ds, plan=SamplingPlan.from_dict(arg), seed=seed, dataset_fingerprint=str(ds.meta["dataset_fingerprint"]), save=False)
        except Exception as e:
            return ("err", type(e).__name__, str(e)[:200])
        return ("ok", undated(r), r.split_fingerprint, json.loads(json.dumps(r.stats)), r.dataset_fingerprint)
    if what == "prep":
        from modssc.preprocess import preprocess
        from modssc.preprocess.plan import PreprocessPlan, StepConfig

        p = PreprocessPlan(output_key=arg["output_key"], steps=tuple(StepConfig(step_id=s["id"], params=dict(s.get("params", {}))) for s in arg["steps"]))
        r = preprocess(ds, p, seed=seed, fit_indices=np.arange(ds.train.y.shape[0], dtype=np.int64), cache=False)
        return list(getattr(r.dataset.train.X, "shape", None) or ()), r.preprocess_fingerprint
    from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, build_graph, graph_to_views
    from modssc.graph.artifacts import NodeDataset

    g = build_graph(ds.train.X, spec=GraphBuilderSpec(**arg["g"]), seed=seed, cache=False)
    if what == "graph":
        return {"fingerprint": g.meta.get("fingerprint"), "n_nodes": g.n_nodes, "n_edges": int(g.edge_index.shape[1])}
    v = graph_to_views(NodeDataset(X=ds.train.X, y=ds.train.y, graph=g, masks={}), spec=GraphFeaturizerSpec(**arg["v"]), seed=seed, cache=False)
    return {"fingerprint": v.meta.get("fingerprint"), "views": list(v.views), "graph": g.meta.get("fingerprint"),
            "data": {k: canon(x) for k, x in v.views.items()}}


def op_stored_views(rt, fp, key):
    from modssc.data_loader import load_dataset
    from modssc.graph.cache import ViewsCache
    from pathlib import Path

    ds = load_dataset(key, cache_dir=Path(rt.root) / "ref")
    v, _ = ViewsCache.default().load(fp, y=np.asarray(ds.train.y), masks={})
    return {k: canon(x) for k, x in v.views.items()}


def op_graphs(rt):
    from modssc.graph.cache import GraphCache, ViewsCache

    g, v = GraphCache.default(), ViewsCache.default()
    whole = []
    for x in sorted(g.list()):
        try:
            whole.append((x, int(g.load(x)[0].edge_index.shape[1])))
        except Exception:  # what an interrupted command leaves is not an entry
            pass
    return sorted(g.list()), sorted(v.list()), whole


def op_lists(rt, what):
    from modssc.data_loader import api

    if what == "list":
        return list(api.available_datasets())
    if what == "steps":
        from modssc.preprocess import available_steps

        return list(available_steps())
    if what == "inductive":
        from modssc.inductive import registry

        return list(registry.available_methods(available_only=True))
    if what == "transductive":
        from modssc.transductive import registry

        return list(registry.available_methods(available_only=True))
    if what == "ops":
        from modssc.data_augmentation.registry import available_ops

        return list(available_ops())
    return list(api.provider_names())


INFOS = {"steps": ["preprocess", "steps", "info"], "models": ["preprocess", "models", "info"], "inductive": ["inductive", "methods", "info"],
         "transductive": ["transductive", "methods", "info"], "ops": ["augmentation", "info", "--as-json"], "classifiers": ["supervised", "info"],
         "datasets": ["datasets", "info", "--dataset"]}


def op_infos(rt, what, n):
    """The nth thing of a kind, and what the library says about it."""
    import dataclasses

    if what in ("inductive", "transductive"):
        import importlib

        reg = importlib.import_module(f"modssc.{what}.registry")
        ids = list(reg.available_methods(available_only=True))
        x = ids[n % len(ids)]
        got = {"method_id": x, "import_path": reg._debug_registry()[x], "info": dataclasses.asdict(reg.get_method_info(x))}
    elif what == "datasets":
        from modssc.data_loader import api

        ids = list(api.available_datasets())
        x = ids[n % len(ids)]
        got = api.dataset_info(x).as_dict()
    elif what == "ops":
        from modssc.data_augmentation.registry import available_ops, op_info

        ids = list(available_ops())
        x = ids[n % len(ids)]
        got = op_info(x)
    elif what == "classifiers":
        from modssc.supervised import available_classifiers, classifier_info

        ids = [r["key"] for r in available_classifiers()]
        x = ids[n % len(ids)]
        got = classifier_info(x)
    else:
        from modssc import preprocess as pp

        ids = list(pp.available_steps() if what == "steps" else pp.available_models())
        x = ids[n % len(ids)]
        got = (pp.step_info if what == "steps" else pp.model_info)(x)
    return x, json.loads(json.dumps(got))


def tree(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = hashlib.sha256(h.read()).hexdigest()
    return out


class Held(dict):
    """What is cached, by dataset; names of one dataset are one entry."""

    def __init__(self, alias):
        self.alias = alias

    def __setitem__(self, k, v):
        super().__setitem__(self.alias[k], v)

    def __getitem__(self, k):
        return super().__getitem__(self.alias[k])

    def __contains__(self, k):
        return super().__contains__(self.alias[k])

    def get(self, k, d=None):
        return super().get(self.alias[k], d)


LISTS = {"list": ["datasets", "list"], "providers": ["datasets", "providers"], "steps": ["preprocess", "steps", "list"],
         "ops": ["augmentation", "list"], "inductive": ["inductive", "methods", "list", "--available-only"], "transductive": ["transductive", "methods", "list", "--available-only"]}


class C01(Scenario):
    prop = "C01"
    quick_runs = 900
    thorough_runs = 30000
    rule = ("2-5 commands in one set of caches (download one or all datasets, list, purge and collect the cache, create, show and validate splits, preprocess, "
            "build graphs and views, compute metrics), each with other options and log levels, some killed or hit by network or disk errors; what a "
            "command prints is compared with the library called directly on fresh data, and what it says it did with what is there; "
            "non-trivial: a command's answer was compared")
    must_reach = ("download", "batch", "ls", "purge", "gc", "create", "exists", "show", "validate", "prep", "graph", "spec-file", "views", "metrics", "lists", "info",
                  "faulted", "missing", "refused")
    real = ["the modssc commands (typer applications, in process)", "data loader, sampling, preprocessing, graph and evaluation code behind them", "sqlite3"]
    stub = ["upstream services", "clock", "entropy", "the terminal (typer's test runner)"]
    assumptions = ["a crash is a killed process", "upstream content of one dataset does not change"]

    def preload(self):
        install_upstream()
        for m in ("sklearn", "sklearn.datasets"):
            sys.modules.pop(m, None)
        import sklearn.datasets
        import sklearn.neighbors  # noqa: F401

        sklearn.datasets.fetch_openml = fake_openml
        import importlib

        import modssc.cli.app  # noqa: F401
        import modssc.data_loader.numpy_adapter  # noqa: F401
        import typer.testing  # noqa: F401
        from modssc.data_loader import providers
        from modssc.preprocess import available_steps, step_info  # noqa: F401

        for v in providers.PROVIDERS.values():
            importlib.import_module(v.split(":")[0])

    def val(self, p, what):
        if p.result is None:
            raise HarnessError(f"{what}: process ended")
        if p.result[0] == "hang":
            raise Violation("stuck", f"{what}: {p.result[1]}")
        if p.result[0] != "ok":
            raise HarnessError(f"{what}: {p.result}")
        return p.result[1]

    def api(self, sim, fn, *a):
        return self.val(sim.run_one(sim.spawn("check", fn, *a)), fn.__name__)

    # ---------------------------------------------------------------------------------------------- one command
    def cmd(self, sim, args, faults=(), missing=(), rerun=True):
        """Run a command; returns (exit code, stdout) or None when it was killed."""
        c = self.c
        lv = c.pick([None, "detailed", "basic", "quiet"], "log")
        full = list(args)
        if lv:
            full = ["--log-level", lv, *full] if c.flip(1, 2, "log-at") else [*full, "--log-level", lv]
        f0 = sum(sim.fired.values())
        p = sim.run_one(sim.spawn(f"c{len(sim.procs)}", op_cli, full, missing), faults=faults, max_faults=1 if faults else 0, hint=60)
        self.hit = sum(sim.fired.values()) > f0
        tidy = lambda x: x.replace(sim.root, "~")  # noqa: E731
        sim.trace.append(tidy(f"$ modssc {' '.join(full)}") + (f" (without {missing})" if missing else ""))
        if p.state == "crashed":
            self.probes["faulted"] = 1
            return None
        rc, out, err, exc = self.val(p, "command")
        sim.trace.append(tidy(f"  -> exit {rc}: {out.strip()[:300]!r} {exc or ''}"))
        if self.hit:
            self.probes["faulted"] = 1
        if exc is not None and rc == 0:
            raise Violation("exit-code", f"modssc {full} ends with {exc} and exit code 0")
        self.err = (err.strip().splitlines() or [""])[-1][:200], exc
        return rc, out

    def good(self, args, r):
        """A command that has no reason to fail must succeed."""
        if r is None:
            return False
        if r[0] != 0:
            if self.hit:
                return False
            raise Violation("command-fails", f"modssc {' '.join(args)}: exit {r[0]}: {r[1][-200:]!r} {self.err}")
        return True

    def js(self, args, out):
        try:
            return json.loads(out)
        except ValueError:
            raise Violation("output", f"modssc {' '.join(args)} prints {out[:300]!r}, not the JSON document it promises") from None

    def run(self, sim):
        self.c = c = sim.c
        self.probes = {}
        self.hit = False
        croot = os.path.join(sim.root, "croot")
        sim.env = {"MODSSC_CACHE_ROOT": croot}
        own = c.flip(1, 2, "cache-dir")
        self.cd = os.path.join(sim.root, "own") if own else os.path.join(croot, "datasets")
        self.dflag = ["--dataset-cache-dir", self.cd] if own else []
        ids = self.api(sim, op_ids, list(KEYS))
        self.held = Held({k: next(j for j in KEYS if ids[j][0] == ids[k][0]) for k in KEYS})  # certainly (True), not (False) or perhaps (None) cached
        self.splits = {}
        self.prev = None
        todo = ["download", "batch", "ls", "purge", "gc", "create", "show", "validate", "prep", "graph", "views", "metrics", "lists", "info"]
        n = 2 + c.choose(4, "ncmd")
        first = todo[c.turn(len(todo), "first")]
        seq = [todo[c.weighted([4, 1, 2, 2, 1, 5, 2, 2, 3, 4, 2, 1, 1, 1], "cmd")] for _ in range(n - 1)]
        seq.insert(min(len(seq), c.choose(n, "where")), first)
        done = []
        for what in seq:
            faults = ("crash", "torn", "enospc", "errno", "interrupt") if c.flip(1, 3, "faulty") else ()
            try:
                getattr(self, "do_" + what)(sim, faults)
            except Violation as e:
                raise Violation(e.cls, e.msg.replace(sim.root, "~")) from None
            done.append(what)
            if sim.escapes:
                raise Violation("escape", f"{what} wrote outside its directories: {sim.escapes[:3]}")
        return {"nontrivial": True, "kind": "+".join(sorted(set(done))), "probes": self.probes, "key": "\n".join(sim.trace)[:2000]}

    # ------------------------------------------------------------------------------------------------- datasets
    def see(self, sim, key, when):
        v = self.api(sim, op_have, key, self.cd)
        if v[0] == "ok":
            ref = self.api(sim, op_ref, "data", key, None, 0)
            if v[1] != ref:
                raise Violation("wrong-data", f"{when}: {key}: {diff(ref, v[1])}")
        elif v[0] != "notcached":
            raise Violation("broken-entry", f"{when}: {key}: {v}")
        return v[0] == "ok"

    def do_download(self, sim, faults, key=None):
        c = self.c
        key = key or c.pick(list(KEYS), "key")
        args = ["datasets", "download", "--dataset", key, *self.dflag]
        force = c.flip(1, 4, "force")
        if force:
            args.append("--force")
        missing = ()
        if KEYS[key] in EXTRA_MODS and c.flip(1, 5, "missing"):
            missing = (KEYS[key],)
            strict = c.flip(1, 2, "strict")
            if strict:
                args.append("--no-ignore-missing-extras")
        r = self.cmd(sim, args, faults, missing)
        self.probes["download"] = 1
        had = self.held.get(key)
        if r is None or self.hit:
            self.held[key] = None
        if missing:
            self.probes["missing"] = 1
            if r is None or self.hit:
                return
            if had is True and not force:
                ok = r[0] == 0 and "Downloaded" in r[1] or strict and r[0] != 0 or r[0] == 0 and "Skipped" in r[1]
            elif strict:
                ok = r[0] != 0 and "Downloaded" not in r[1]
            else:
                ok = r[0] == 0 and "Skipped" in r[1] and "Downloaded" not in r[1]
            if had is not None and not ok:
                raise Violation("exit-code", f"modssc {' '.join(args)} without its extra: exit {r[0]} {r[1]!r}")
            if "Skipped" in r[1] or r[0] != 0:
                if had is not True or force:
                    self.held[key] = None
                return
        elif not self.good(args, r):
            return
        if r[0] == 0 and not self.see(sim, key, f"after modssc {' '.join(args)}"):
            raise Violation("not-done", f"modssc {' '.join(args)} says {r[1].strip()!r}, but the dataset is not cached")
        self.held[key] = r[0] == 0 or None

    def do_batch(self, sim, faults):
        c = self.c
        mods = [m for m in ("text", "graph", "vision") if c.flip(1, 2, m)]
        args = ["datasets", "download", "--all", *self.dflag]
        for m in mods:
            args += ["--modalities", m]
        if c.flip(1, 2, "skip"):
            args.append("--skip-cached")
        missing = tuple(x for x in ("hf", "pyg", "torchvision") if c.flip(1, 5, "missing"))
        r = self.cmd(sim, args, faults, missing)
        self.probes["batch"] = 1
        mod = {"ag_news": "text", "cora": "graph", "stl10": "vision", "toy": "tabular"}
        sel = [k for k in BATCH if not mods or mod[k] in mods]
        for k in sel:
            if r is None or self.hit or KEYS[k] in missing:
                self.held[k] = None
        if r is None:
            return
        rc, out = r
        lines = out.splitlines()
        if rc not in (0, 2) or not lines:
            if not self.hit:
                raise Violation("command-fails", f"modssc {' '.join(args)}: exit {rc}: {out!r} {self.err}")
            return
        if not lines[0].startswith("Downloaded: "):
            if not self.hit:
                raise Violation("output", f"modssc {' '.join(args)}: exit {rc}: {out!r}")
            return
        num = dict(x.rsplit(": ", 1) for x in lines[:4])
        failed = [x.split(": ", 1)[0] for x in lines[lines.index("Failed:") + 1:]] if "Failed:" in lines else []
        if (rc == 2) != bool(failed) or int(num["Failed"]) != len(failed):
            raise Violation("exit-code", f"modssc {' '.join(args)}: exit {rc}: {out!r}")
        if failed and not self.hit:
            raise Violation("command-fails", f"modssc {' '.join(args)}: {out!r}")
        lacks = [k for k in sel if KEYS[k] in missing]
        listed = []
        if "Missing extras:" in lines:
            i = lines.index("Missing extras:") + 1
            while i < len(lines) and lines[i]:
                listed += lines[i].split(": ", 1)[1].split(", ")
                i += 1
        if not set(listed) <= set(lacks) or sum(int(v) for v in num.values()) != len(sel):
            raise Violation("output", f"modssc {' '.join(args)} for {sel} without {missing}: {out!r}")
        for k in sel:
            if k in failed or k in listed:
                continue
            if not self.see(sim, k, f"after modssc {' '.join(args)}"):
                raise Violation("not-done", f"modssc {' '.join(args)}: {k} is neither failed nor missing in {out!r}, but it is not cached")
            self.held[k] = True

    def sure(self):
        """Is it certain what the dataset cache holds?"""
        return None not in self.held.values()

    def do_ls(self, sim, faults):
        flag = ["--cache-dir" if self.c.flip(1, 2, "alias") else "--dataset-cache-dir", self.cd] if self.dflag else []
        args = ["datasets", "cache", "ls", *flag]
        before = None
        if not os.path.isdir(self.cd):
            self.do_download(sim, ())
        before = self.api(sim, op_index, self.cd)
        r = self.cmd(sim, args)
        self.good(args, r)
        self.probes["ls"] = 1
        got = sorted(x.split()[0] for x in r[1].splitlines())
        if got != before:
            raise Violation("output", f"modssc {' '.join(args)} lists {got}, the index has {before}")
        if self.sure():
            ids = self.api(sim, op_ids, list(self.held))
            want = sorted({ids[k][0] for k, v in self.held.items() if v})
            if got != want:
                raise Violation("output", f"modssc {' '.join(args)} lists {got}; cached are {want} ({self.held})")

    def do_purge(self, sim, faults):
        c = self.c
        key = c.pick([k for k, v in self.held.items() if v is not False] or ["toy"], "key")
        if not self.held.get(key) and not os.path.isdir(self.cd) or c.flip(1, 2, "fetch"):
            self.do_download(sim, (), key)
        if not os.path.isdir(self.cd):
            return
        ids = self.api(sim, op_ids, sorted({*self.held, key}))
        fp, uri = ids[key]
        by = c.flip(1, 2, "by")
        name = key if ":" not in key and c.flip(1, 2, "as-key") else uri
        args = ["datasets", "cache", "purge", fp, "--fingerprint"] if by else ["datasets", "cache", "purge", name]
        args += ["--cache-dir", self.cd] if self.dflag else []
        same = [k for k in self.held if (ids[k][0] == fp if by else ids[k][1] == uri)]
        r = self.cmd(sim, args, faults)
        self.probes["purge"] = 1
        if not self.good(args, r):
            for k in same:
                self.held[k] = None
            self.check_rest(sim, same, "an interrupted purge")
            return
        had = {k: self.held[k] for k in same}
        for k in same:
            if self.see(sim, k, "after a purge"):
                if had[k] is not None:
                    raise Violation("not-done", f"modssc {' '.join(args)} says {r[1].strip()!r}, but {k} is still there")
            else:
                self.held[k] = False
        if not by and None not in had.values():
            n = len({ids[k][0] for k in same if had[k]})
            if r[1].strip() != f"Purged variants: {n}":
                raise Violation("output", f"modssc {' '.join(args)} prints {r[1]!r} after removing {n}")
        self.check_rest(sim, same, "a purge")

    def check_rest(self, sim, but, what):
        for k, v in list(self.held.items()):
            if v and k not in but and not self.see(sim, k, f"after {what}"):
                raise Violation("lost-entry", f"{what} of {but} removed {k}")

    def do_gc(self, sim, faults):
        if not os.path.isdir(self.cd):
            self.do_download(sim, ())
        args = ["datasets", "cache", "gc", *(["--cache-dir", self.cd] if self.dflag else [])]
        keep = self.c.flip(1, 3, "no-keep")
        if keep:
            args.append("--no-keep-latest")
        n0 = len(self.api(sim, op_index, self.cd)) if os.path.isdir(self.cd) else 0
        r = self.cmd(sim, args, faults)
        self.probes["gc"] = 1
        ids = self.api(sim, op_ids, list(self.held)) if self.held else {}
        uris = [ids[k][1] for k in self.held if self.held[k] is not False]
        if not self.good(args, r):
            return
        n1 = len(self.api(sim, op_index, self.cd))
        if keep and (r[1].strip() != "Nothing to do." or n1 != n0) or not keep and r[1].strip() != f"Removed: {n0 - n1}":
            raise Violation("output", f"modssc {' '.join(args)} prints {r[1]!r}; the index had {n0} entries and has {n1}")
        for k, v in self.held.items():  # one entry of each dataset stays
            if v and uris.count(ids[k][1]) == 1 and not self.see(sim, k, "after gc"):
                raise Violation("lost-entry", f"modssc {' '.join(args)} removed {k}, the only entry of its dataset")

    # ------------------------------------------------------------------------------------------------- sampling
    def write(self, sim, name, obj):
        import yaml

        p = os.path.join(sim.root, name)
        with open(p, "w") as h:
            if name.endswith(".json"):
                json.dump(obj, h)
            else:
                yaml.safe_dump(obj, h)
        return p

    def do_create(self, sim, faults):
        c = self.c
        key = c.pick(["toy", "toy:default", "hf:alpha", "openml:77", "cora", "ag_news", "tfds:imgs/1.0", "tfds:imgs/1.0"], "key")
        plan = c.pick(PLANS, "plan")
        seed = c.pick([0, 5, 1234], "seed")
        out = os.path.join(sim.root, c.pick(["s0", "s1"], "out"))
        over = c.flip(1, 2, "overwrite")
        path = self.write(sim, c.pick(["plan.yaml", "plan.json"], "pfile"), plan)
        args = ["sampling", "create", "--dataset", key, "--plan", path, "--out", out, *self.dflag]
        if seed or c.flip(1, 2, "seedflag"):
            args += ["--seed", str(seed)]
        if over:
            args.append("--overwrite")
        ref = self.api(sim, op_ref, "sample", key, plan, seed)
        old = tree(out) if os.path.isdir(out) else None
        r = self.cmd(sim, args, faults)
        self.probes["create"] = 1
        had = self.held.get(key)
        self.held[key] = None if r is None or self.hit else True
        if self.hit and (r is None or r[0] != 0):
            was = self.splits.pop(out, None)
            if was is not None:
                v = self.api(sim, op_split, out)
                if v[0] != "ok" or v[1] not in (was[2][1], ref[1] if ref[0] == "ok" else None):
                    raise Violation("split-lost", f"modssc {' '.join(args)} was interrupted; the split that was there is {v[1:3] if v[0] != 'ok' else 'neither the old nor the new one'}")
                self.splits[out] = (was if v[1] == was[2][1] else (key, ref, v))
            return
        if r is None:
            self.splits.pop(out, None)
            return
        if ref[0] == "err" or old and not over:
            if r[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0 {'although the directory exists' if old else ref}: {r[1]!r}")
            self.probes["exists" if old and ref[0] == "ok" else "refused"] = 1
            now = tree(out) if os.path.isdir(out) else None
            if now != old and not self.hit:
                raise Violation("refused-but-done", f"modssc {' '.join(args)} fails, yet {out} changed")
            if self.hit:
                self.held[key] = None
            elif had is not True:
                self.held[key] = True if self.see(sim, key, "after create") else None
            return
        if not self.good(args, r):
            return
        got = self.js(args, r[1])
        want = {"output_dir": out, "dataset_fingerprint": ref[4], "split_fingerprint": ref[2], "stats": ref[3]}
        if got != want:
            raise Violation("output", f"modssc {' '.join(args)}: {diff(canon(want), canon(got))}")
        v = self.api(sim, op_split, out)
        if v[0] != "ok" or v[1] != ref[1]:
            raise Violation("not-done", f"modssc {' '.join(args)} succeeded, but the stored split {v[1:3] if v[0] != 'ok' else diff(ref[1], v[1])}")
        self.splits[out] = (key, ref, v)

    def do_show(self, sim, faults):
        if not self.splits:
            self.do_create(sim, ())
        if not self.splits:
            return
        out = self.c.pick(sorted(self.splits), "which")
        args = ["sampling", "show", out]
        r = self.cmd(sim, args)
        self.good(args, r)
        self.probes["show"] = 1
        v = self.splits[out][2]
        if self.js(args, r[1]) != {"plan": v[4], "stats": v[3]}:
            raise Violation("output", f"modssc {' '.join(args)} prints {r[1][:300]!r}; stored is {v[3]} {v[4]}")

    def do_validate(self, sim, faults):
        c = self.c
        if not self.splits:
            self.do_create(sim, ())
        if not self.splits:
            return
        out = c.pick(sorted(self.splits), "which")
        key, ref, v = self.splits[out]
        other = c.flip(1, 2, "other")
        k2 = c.pick([k for k in KEYS if k != key], "other-key") if other else key
        if other and c.flip(1, 2, "no-test"):
            k2 = c.pick([k for k in ("openml:77", "tfds:notest", "openml:61") if k != key], "other-key2")
        if other and not self.held.get(k2) and c.flip(2, 3, "fetch"):
            self.do_download(sim, (), k2)
        sure = self.held.get(k2) is True or self.held.get(k2, False) is False
        here = self.held.get(k2) is True
        args = ["sampling", "validate", out, "--dataset", k2, *self.dflag]
        r = self.cmd(sim, args)
        self.probes["validate"] = 1
        if not sure:
            return
        if not here:
            if r[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0 {r[1]!r}; the dataset is not cached")
            return
        bad = self.fits(sim, out, k2)
        if (r[0] == 0) != (bad is None) or (r[0] == 0) != (r[1].strip() == "OK"):
            raise Violation("validate", f"modssc {' '.join(args)}: exit {r[0]} {r[1].strip()!r} {self.err}; the split of {key} {'fits' if bad is None else bad}")
        if bad:
            self.probes["refused"] = 1

    def fits(self, sim, out, key):
        """Does the stored split fit that dataset?"""
        n, nt, graph = self.api(sim, op_sizes, key)
        return self.api(sim, op_fits, out, n, nt, graph)

    # ------------------------------------------------------------------------------------------ preprocess, graph
    def do_prep(self, sim, faults):
        c = self.c
        key = c.pick(NUMERIC, "key")
        plan = c.pick(PREP, "plan")
        seed = c.pick([0, 3], "seed")
        path = self.write(sim, "prep.yaml", plan)
        args = ["preprocess", "run", "--plan", path, "--dataset", key, *self.dflag]
        if seed:
            args += ["--seed", str(seed)]
        nc = c.flip(1, 3, "no-cache")
        if nc:
            args.append("--no-cache")
        if c.flip(1, 4, "purge-unused"):
            args.append("--purge-unused")
        ref = self.api(sim, op_ref_safe, "prep", key, plan, seed)
        shape, fp = ref if len(ref) == 2 else (None, None)
        r = self.cmd(sim, args, faults)
        self.held[key] = None if r is None or self.hit else True
        self.probes["prep"] = 1
        if fp is None:  # the plan does not fit the dataset
            if r is not None and r[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0, but this plan cannot be run: {r[1]!r}")
            return
        if not self.good(args, r):
            return
        got = self.js(args, r[1])
        if got["train_X_shape"] != shape or got["preprocess_fingerprint"] != fp or got["dataset"] != key or got["output_key"] != plan["output_key"]:
            raise Violation("output", f"modssc {' '.join(args)} prints {got}; the result has shape {shape} and fingerprint {fp}")
        if nc and got["cache_dir"] is not None or not nc and not (got["cache_dir"] and os.path.isdir(got["cache_dir"])):
            raise Violation("output", f"modssc {' '.join(args)} names the cache directory {got['cache_dir']}")

    def gen_graph(self, c):
        s = c.pick(["knn", "epsilon", "anchor"], "scheme")
        g = {"scheme": s, "metric": c.pick(["cosine", "euclidean"], "metric"), "k": c.pick([30, 3, 4], "k"), "radius": c.pick([0.5, 0.9], "radius")}
        if s != "anchor" and c.flip(1, 2, "backend"):
            g["backend"] = c.pick(["numpy", "sklearn"], "be")
        if c.flip(1, 2, "chunk"):
            g["chunk_size"] = c.pick([3, 7], "cs")
        if s == "anchor":
            if c.flip(1, 2, "na"):
                g["n_anchors"] = c.pick([5, 3], "nav")
            if c.flip(1, 2, "ak"):
                g["anchors_k"] = c.pick([2, 3], "akv")
            if c.flip(1, 2, "am"):
                g["anchors_method"] = "kmeans"
            if c.flip(1, 3, "cl"):
                g["candidate_limit"] = c.pick([4, 8], "clv")
        return g

    def do_graph(self, sim, faults):
        c = self.c
        key = c.pick(NUMERIC[:2] + ["cora"], "key")
        g = self.gen_graph(c)
        seed = c.pick([0, 3], "seed")
        args = ["graph", "build", "--dataset", key, *self.dflag]
        full = dict(g)
        if c.flip(1, 3, "spec"):
            self.probes["spec-file"] = 1
            if c.flip(1, 2, "more"):
                full.update(symmetrize=c.pick(["or", "none"], "sym"), normalize=c.pick(["none", "sym"], "norm"), self_loops=False,
                            weights={"kind": c.pick(["binary", "heat"], "wk"), "sigma": 1.0})
            args += ["--spec", self.write(sim, c.pick(["spec.yaml", "spec.json"], "sfile"), full)]
            if "weights" in full:
                from modssc.graph.specs import GraphWeightsSpec

                full["weights"] = GraphWeightsSpec(**full["weights"])
            else:
                from modssc.graph.specs import GraphWeightsSpec

                full["weights"] = GraphWeightsSpec.from_dict({})
        else:
            for k, v in g.items():
                args += ["--" + k.replace("_", "-"), str(v)]
        if seed:
            args += ["--seed", str(seed)]
        nc = c.flip(1, 4, "no-cache")
        if nc:
            args.append("--no-cache")
        elif c.flip(1, 3, "shard"):
            args += ["--edge-shard-size", str(c.pick([7, 20], "ss"))]
        if c.flip(1, 4, "no-resume"):
            args.append("--no-resume")
        ref = self.api(sim, op_ref_safe, "graph", key, {"g": full}, seed)
        before = set(self.api(sim, op_graphs)[0])
        r = self.cmd(sim, args, faults)
        self.held[key] = None if r is None or self.hit else True
        self.probes["graph"] = 1
        if isinstance(ref, tuple):
            if r is not None and r[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0 {r[1]!r}; the library refuses: {ref}")
            return
        if not self.good(args, r):
            return
        got = self.js(args, r[1])
        if got != ref:
            raise Violation("output", f"modssc {' '.join(args)} prints {got}; the graph is {ref}")
        after = self.api(sim, op_graphs)
        if nc and set(after[0]) != before:
            raise Violation("cache", f"modssc {' '.join(args)} stored a graph")
        if not nc and (ref["fingerprint"], ref["n_edges"]) not in [tuple(x) for x in after[2]]:
            raise Violation("not-done", f"modssc {' '.join(args)}: the graph {ref['fingerprint']} is not in the cache: {after[2]}")
        if c.flip(1, 3, "ls"):
            a2 = ["graph", "cache", "ls"]
            r2 = self.cmd(sim, a2)
            self.good(a2, r2)
            if sorted(r2[1].split()) != after[0]:
                raise Violation("output", f"modssc graph cache ls prints {r2[1]!r}; stored are {after[0]}")
        if c.flip(1, 6, "purge"):
            a2 = ["graph", "cache", "purge"]
            r2 = self.cmd(sim, a2)
            self.good(a2, r2)
            left = self.api(sim, op_graphs)
            if left[0] or left[1] != after[1] or r2[1].strip() != f"Purged {len(after[0])} cached graphs.":
                raise Violation("not-done", f"modssc graph cache purge prints {r2[1]!r}; before {after[:2]}, after {left[:2]}")

    def do_views(self, sim, faults):
        c = self.c
        key = c.pick(NUMERIC[:2] + ["cora"], "key")
        g = {"scheme": c.pick(["knn", "epsilon", "anchor"], "scheme"), "metric": c.pick(["cosine", "euclidean"], "metric"), "k": c.pick([30, 4], "k"),
             "radius": c.pick([0.5, 0.9], "radius")}
        vs = c.pick([[], ["attr"], ["diffusion"], ["struct"], ["struct", "attr"], ["diffusion", "attr"]], "views")
        v = {"views": tuple(vs or ["attr"])}
        args = ["graph", "views", "build", "--dataset", key, "--scheme", g["scheme"], "--metric", g["metric"], "--k-graph", str(g["k"]), "--radius", str(g["radius"]), *self.dflag]
        for x in vs:
            args += ["--views", x]
        if "struct" in vs:
            v.update(struct_dim=4, walk_length=5, num_walks_per_node=2, window_size=2)
            if c.flip(1, 2, "n2v"):
                v.update(struct_method="node2vec", p=0.5, q=2.0)
        if c.flip(1, 2, "dif"):
            v.update(diffusion_steps=2, diffusion_alpha=0.3)
        for k, x in v.items():
            if k != "views":
                args += ["--" + k.replace("_", "-"), str(x)]
        seed = c.pick([0, 3], "seed")
        if seed:
            args += ["--seed", str(seed)]
        nc = c.flip(1, 4, "no-cache")
        if nc:
            args.append("--no-cache")
            v["cache"] = False
        ref = self.api(sim, op_ref_safe, "views", key, {"g": g, "v": v}, seed)
        r = self.cmd(sim, args, faults)
        self.held[key] = None if r is None or self.hit else True
        self.probes["views"] = 1
        if isinstance(ref, tuple):
            if r is not None and r[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0 {r[1]!r}; the library refuses: {ref}")
            return
        if not self.good(args, r):
            return
        got = self.js(args, r[1])
        if got["fingerprint"] != ref["fingerprint"] or sorted(got["views"]) != sorted(ref["views"]):
            raise Violation("output", f"modssc {' '.join(args)} prints {got}; the views are {ref['fingerprint']} {ref['views']}")
        if not nc:
            d = self.api(sim, op_stored_views, ref["fingerprint"], key)
            if d != ref["data"]:
                raise Violation("not-done", f"modssc {' '.join(args)}: the stored views {diff(ref['data'], d)}")

    # ------------------------------------------------------------------------------------------------- the rest
    def do_metrics(self, sim, faults):
        from .meth import metric

        c = self.c
        n = c.pick([5, 1, 12, 0], "n")
        r = np.random.default_rng(c.choose(1000, "mseed"))
        k = c.pick([3, 2, 5], "k")
        y, p = r.integers(0, k, n), r.integers(0, k, n)
        bad = c.flip(1, 6, "lengths")
        np.save(os.path.join(sim.root, "y.npy"), y)
        np.save(os.path.join(sim.root, "p.npy"), p[:-1] if bad and n else p)
        args = ["evaluation", "compute", "--y-true", os.path.join(sim.root, "y.npy"), "--y-pred", os.path.join(sim.root, "p.npy"), "--json"]
        ms = [m for m in METRICS if c.flip(1, 2, m)]
        for m in ms:
            args += ["--metric", m]
        out = self.cmd(sim, args)
        self.probes["metrics"] = 1
        if bad and n or n == 0:
            if bad and n and out[0] == 0:
                raise Violation("exit-code", f"modssc {' '.join(args)}: exit 0 for {n} labels and {n - 1} predictions: {out[1]!r}")
            return
        self.good(args, out)
        got = self.js(args, out[1])
        want = {m: metric(m, y, p) for m in ms or METRICS}
        if sorted(got) != sorted(want) or any(abs(got[m] - want[m]) > 1e-9 for m in want):
            raise Violation("output", f"modssc {' '.join(args)} prints {got} instead of {want} for {y.tolist()} {p.tolist()}")

    def do_info(self, sim, faults):
        what = self.c.pick(list(INFOS), "kind")
        x, want = self.api(sim, op_infos, what, self.c.choose(512, "nth"))
        args = [*INFOS[what], x]
        r = self.cmd(sim, args)
        self.good(args, r)
        self.probes["info"] = 1
        if self.js(args, r[1]) != want:
            raise Violation("output", f"modssc {' '.join(args)} prints {r[1][:300]!r} instead of {want}")

    def do_lists(self, sim, faults):
        what = self.c.pick(list(LISTS), "list")
        want = self.api(sim, op_lists, what)
        r = self.cmd(sim, LISTS[what])
        self.good(LISTS[what], r)
        self.probes["lists"] = 1
        if r[1].split() != want:
            raise Violation("output", f"modssc {' '.join(LISTS[what])} prints {r[1][:300]!r} instead of {want}")


def op_ref_safe(rt, *a):
    """A reference answer, or what the library raises."""
    try:
        return op_ref(rt, *a)
    except seam.SimHang:
        raise
    except Exception as e:
        return (type(e).__name__, str(e)[:200], tb_tail(e))


def op_sizes(rt, key):
    from pathlib import Path

    from modssc.data_loader import load_dataset

    ds = load_dataset(key, cache_dir=Path(rt.root) / "ref")
    return len(ds.train.y), None if ds.test is None else len(ds.test.y), ds.train.edges is not None or ds.train.masks is not None


def op_fits(rt, path, n, nt, graph):
    from pathlib import Path

    from modssc.sampling.api import load_split

    r = load_split(Path(path))
    if r.masks:
        if not graph:
            return "is one of nodes"
        return None if all(len(m) == n for m in r.masks.values()) else "has masks of another length"
    for name, idx in r.indices.items():
        lim = nt if r.refs.get(name, "train") == "test" else n
        if lim is None:
            return f"has {name} rows of a test set that does not exist" if len(idx) or name == "test" else None
        if len(idx) and int(np.max(idx)) >= lim:
            return f"has {name} rows beyond {lim}"
    return None


SCENARIOS = {"C01": C01()}
