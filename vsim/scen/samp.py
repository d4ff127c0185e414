"""Splits: reproducible sampling and durable split directories."""

from __future__ import annotations

import hashlib
import os
from pathlib import Path

from ..canon import canon, diff
from ..core import Violation, tb_tail
from . import Scenario

SPLITS = [
    {"kind": "holdout"}, {"kind": "holdout", "test_fraction": 0.3, "val_fraction": 0.25},
    {"kind": "holdout", "stratify": False}, {"kind": "holdout", "test_fraction": 0.0},
    {"kind": "holdout", "val_fraction": 0.0, "shuffle": False}, {"kind": "holdout", "test_fraction": 0.5, "stratify": False},
    {"kind": "kfold", "k": 3, "fold": 1}, {"kind": "kfold", "k": 4, "fold": 0, "shuffle": False},
    {"kind": "kfold", "k": 2, "fold": 1, "stratify": False, "val_fraction": 0.3}, {"kind": "kfold", "k": 3, "fold": 2, "val_fraction": 0.2},
    {"kind": "kfold", "k": 5, "fold": 4, "stratify": False, "shuffle": False}, {"kind": "kfold"},
]
LABELS = [
    {}, {"mode": "fraction", "value": 0.5}, {"mode": "fraction", "value": 1.0}, {"mode": "count", "value": 5},
    {"mode": "count", "value": 4, "strategy": "balanced"}, {"mode": "per_class", "value": 2},
    {"mode": "per_class", "value": 1, "min_per_class": 3}, {"mode": "fraction", "value": 0.3, "strategy": "balanced", "min_per_class": 0},
    {"mode": "count", "value": 0, "min_per_class": 0}, {"mode": "fraction", "value": 0.05, "min_per_class": 2}, {"mode": "count", "value": 1000},
]
IMBALANCE = [
    {}, {"kind": "subsample_max_per_class", "max_per_class": 3}, {"kind": "subsample_max_per_class", "max_per_class": 2, "apply_to": "labeled"},
    {"kind": "long_tail", "alpha": 0.5}, {"kind": "long_tail", "alpha": 0.3, "apply_to": "labeled", "min_per_class": 2},
    {"kind": "subsample_max_per_class", "max_per_class": 1},
]
POLICY = [{}, {"respect_official_test": False}, {"allow_override_official": True}, {"use_official_graph_masks": False},
          {"use_official_graph_masks": False, "respect_official_test": False}]
YKINDS = ("int", "neg", "str", "float", "one", "i32", "sparse")


def _rng(*a):
    import numpy as np

    return np.random.Generator(np.random.PCG64(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")))


def labels(kind, n, seed):
    import numpy as np

    y = np.minimum(_rng("y", kind, n, seed).geometric(0.45, n), 4) - 1
    if kind == "neg":
        return y - 2
    if kind == "str":
        return np.array(["ab", "z", "mm", "a"])[y]
    if kind == "float":
        return y / 2.0
    if kind == "one":
        return np.zeros(n, dtype=np.int64)
    if kind == "i32":
        return y.astype(np.int32)
    if kind == "sparse":
        return y * 400000
    return y.astype(np.int64)


def dataset(d, order="C"):
    import numpy as np

    from modssc.data_loader.types import LoadedDataset, Split

    n = d["n"]
    y = labels(d["y"], n, d["seed"])
    X = np.arange(n * 2, dtype=np.float64).reshape(n, 2)
    if order == "strided":
        big = np.empty(2 * n, dtype=y.dtype)
        big[::2] = y
        y = big[::2]
    tr = dict(X=X, y=y)
    te = None
    if d["kind"] != "inductive":
        r = _rng("g", n, d["seed"])
        tr["edges"] = np.stack([np.arange(n), r.permutation(n)]) if d["kind"] != "masks-only" else None
        if d["kind"] in ("masks", "masks-only"):
            u = r.random(n)
            tr["masks"] = {"train": u < 0.5, "val": (u >= 0.5) & (u < 0.7), "test": u >= 0.7}
        elif d["kind"] == "part-masks":
            tr["masks"] = {"train": r.random(n) < 0.5}
    elif d["test"]:
        te = Split(X=X[:7], y=labels(d["y"], 7, d["seed"] + 50))
    fp = hashlib.sha256(repr(sorted(d.items())).encode()).hexdigest()
    return LoadedDataset(train=Split(**tr), test=te, meta={"dataset_fingerprint": fp})


def gen_req(c):
    d = {"kind": c.pick(["inductive", "inductive", "inductive", "masks", "graph", "part-masks", "masks-only"], "dskind"),
         "n": c.pick([30, 12, 47, 5, 1, 0], "n"), "y": YKINDS[c.weighted([6, 1, 2, 1, 1, 1, 1], "y")], "seed": c.choose(4, "dsseed"),
         "test": c.flip(1, 2, "official")}
    fixed = c.weighted([8, 1, 1], "fixed")
    lab = dict(LABELS[c.choose(len(LABELS), "labeling")])
    if fixed:
        lab["fixed_indices"] = "some" if fixed == 1 else "bad"
    return {"d": d, "split": dict(SPLITS[c.choose(len(SPLITS), "split")]), "lab": lab,
            "imb": dict(IMBALANCE[c.weighted([4, 1, 1, 1, 1, 1], "imb")]), "pol": dict(POLICY[c.weighted([4, 1, 1, 1, 1], "pol")]),
            "seed": c.pick([0, 1, 7, 2 ** 31 + 5], "seed")}


def neighbour(c, r):
    import copy

    r = copy.deepcopy(r)
    w = c.choose(7, "nb")
    if w == 0:
        r["seed"] += 1
    elif w == 1:
        r["split"] = dict(SPLITS[c.choose(len(SPLITS), "split")])
    elif w == 2:
        r["lab"] = dict(LABELS[c.choose(len(LABELS), "labeling")])
    elif w == 3:
        r["imb"] = dict(IMBALANCE[c.choose(len(IMBALANCE), "imb")])
    elif w == 4:
        r["pol"] = dict(POLICY[c.choose(len(POLICY), "pol")])
    elif w == 5:
        r["d"]["seed"] += 1
    elif r["split"]["kind"] == "kfold":
        r["split"]["fold"] = (r["split"].get("fold", 0) + 1) % r["split"].get("k", 5)
    else:
        r["split"]["stratify"] = not r["split"].get("stratify", True)
    return r


def plan_dict(r, ds):
    lab = dict(r["lab"])
    if lab.get("fixed_indices") == "some":
        from modssc.sampling.api import sample
        from modssc.sampling.plan import SamplingPlan

        # some of the samples this very plan trains on
        base = {**plan_dict({**r, "lab": {}, "imb": {}}, ds)}
        res, _ = sample(ds, plan=SamplingPlan.from_dict(base), seed=r["seed"])
        lab["fixed_indices"] = [int(i) for i in res.train_idx[::2]]
    elif lab.get("fixed_indices") == "bad":
        lab["fixed_indices"] = [0, 1, 2, 3]
    return {"split": dict(r["split"]), "labeling": lab, "imbalance": dict(r["imb"]), "policy": dict(r["pol"])}


def show(r):
    return f"{r['d']} split={r['split']} labeling={r['lab']} imbalance={r['imb']} policy={r['pol']} seed={r['seed']}"


def do_sample(r, how="plain", **kw):
    import numpy as np

    from modssc.sampling.api import sample
    from modssc.sampling.plan import HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy

    ds = dataset(r["d"], "strided" if how == "strided" else "C")
    b = canon(ds)
    pd = plan_dict(r, ds)
    if how == "bench":
        from bench.orchestrators.sampling import run

        res, path = run(ds, plan_dict=pd, seed=r["seed"]), None
    else:
        if how == "objects":
            s = dict(pd["split"])
            plan = SamplingPlan(split=(KFoldSplitSpec if s["kind"] == "kfold" else HoldoutSplitSpec)(**s),
                                labeling=LabelingSpec(**{"mode": "fraction", **pd["labeling"]}), imbalance=ImbalanceSpec(**pd["imbalance"]),
                                policy=SamplingPolicy(**pd["policy"]))
        else:
            plan = SamplingPlan.from_dict(pd)
            if how == "roundtrip":
                plan = SamplingPlan.from_dict(plan.as_dict())
        res, path = sample(ds, plan=plan, seed=np.int64(r["seed"]) if how == "npseed" else r["seed"],
                           **({"dataset_fingerprint": ds.meta["dataset_fingerprint"]} if how == "fp" else {}), **kw)
    if canon(ds) != b:
        raise AssertionError("the dataset was modified: " + str(diff(b, canon(ds))))
    return res, path


def full(res):
    """Everything of a result, in canonical form."""
    import dataclasses

    return canon({f.name: _plain(getattr(res, f.name)) for f in dataclasses.fields(res)})


def _plain(x):
    from collections.abc import Mapping

    if isinstance(x, Mapping):
        return {str(k): _plain(v) for k, v in x.items()}
    return x


def undated(res):
    import dataclasses

    return full(dataclasses.replace(res, created_at="-"))


def invariants(r, res, ds):
    """What any split must satisfy; independent of the library's own validation."""
    import numpy as np

    n = len(ds.train.y)
    tr, va, te, la, un = (np.asarray(a) for a in (res.train_idx, res.val_idx, res.test_idx, res.labeled_idx, res.unlabeled_idx))
    for name, a in (("train", tr), ("val", va), ("test", te), ("labeled", la), ("unlabeled", un)):
        if len(set(a.tolist())) != a.size:
            return f"{name} has duplicates"
        lim = len(ds.test.y) if name == "test" and not res.is_graph() and res.refs.get("test") == "test" else n
        if a.size and (a.min() < 0 or a.max() >= lim):
            return f"{name} out of range"
    s = [set(a.tolist()) for a in (tr, va, te, la, un)]
    own = res.is_graph() or res.refs.get("test") != "test"
    if s[0] & s[1] or (own and (s[0] & s[2] or s[1] & s[2])):
        return "train, val and test overlap"
    if s[3] & s[4] or (s[3] | s[4]) != s[0]:
        return "labeled and unlabeled do not partition train"
    if not own and te.tolist() != list(range(len(ds.test.y))):
        return "the official test set is not the test set"
    if own and not res.is_graph() and ds.test is not None and r["pol"].get("respect_official_test", True) and not r["pol"].get("allow_override_official", False):
        return "the official test set is ignored"
    official = res.is_graph() and ds.train.masks is not None and len(ds.train.masks) == 3 and r["pol"].get("use_official_graph_masks", True)
    if official:
        for k, a in (("train", tr), ("val", va), ("test", te)):
            if a.tolist() != np.where(ds.train.masks[k])[0].tolist():
                return f"official {k} mask not used"
    elif r["imb"].get("kind", "none") == "none" or r["imb"].get("apply_to") == "labeled" or res.is_graph():
        if len(s[0] | s[1] | (s[2] if own else set())) != n:
            return "train, val and test do not cover the data"
    return None


def op_sample(rt, r, how="plain", before=()):
    import random

    import numpy as np

    try:
        for q, h in before:
            try:
                do_sample(q, h)
            except Exception:
                pass
            random.random()
            np.random.random(3)
        res, _ = do_sample(r, how)
        bad = invariants(r, res, dataset(r["d"]))
        own = res.is_graph() or res.refs.get("test") != "test"
        return ("ok", undated(res), res.split_fingerprint, None, bad, (None, res.val_idx.tolist(), res.test_idx.tolist(), own))
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:300], tb_tail(e))


def op_save(rt, r, target, overwrite, how):
    """Returns ("ok", content) with the content that was to be stored, or the error."""
    content = None
    try:
        if how == "cache":
            res, p = do_sample(r, save=True, overwrite=overwrite, cache_root=Path(target))
        else:
            from modssc.sampling.api import save_split

            res, _ = do_sample(r)
            rt.events.append(("content", repr(full(res))))
            p = save_split(res, Path(target), overwrite=overwrite)
        return ("ok", full(res), undated(res), os.path.relpath(str(p), rt.root))
    except FileExistsError as e:
        return ("exists", str(e).replace(rt.root, "<root>"), content)
    except Exception as e:
        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))


def op_load(rt, target, root=None):
    from modssc.sampling.api import load_split

    try:
        res = load_split(Path(target))
        return ("ok", full(res), undated(res))
    except Exception as e:
        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:200])


class SampScenario(Scenario):
    real = ["modssc.sampling (plan, splitters, labeling, imbalance, result, storage)", "bench.orchestrators.sampling",
            "real file system below a scratch directory"]
    stub = ["clock", "entropy"]
    assumptions = ["a crash is a killed process: what was handed to the kernel survives, user-space buffers are lost"]

    def preload(self):
        import bench.orchestrators.sampling  # noqa: F401
        import modssc.sampling.api  # noqa: F401

    def val(self, p, when):
        kind, val = p.result
        if kind == "hang":
            raise Violation("stuck", f"{when}: {val}")
        if kind == "raise" and val[0] == "AssertionError" and "modified" in val[1]:
            raise Violation("input-modified", val[1])
        if kind != "ok":
            raise AssertionError(f"harness: {p.result}")
        return val


def good_req(sim, sc, c):
    """A request that samples successfully (and its content without the date)."""
    for _ in range(12):
        r = gen_req(c)
        v = sc.val(sim.run_one(sim.spawn("ref", op_sample, r)), "reference")
        if v[0] == "ok":
            return r, v[1]
    r = {"d": {"kind": "inductive", "n": 30, "y": "int", "seed": 0, "test": False}, "split": SPLITS[0], "lab": {}, "imb": {}, "pol": {}, "seed": 0}
    return r, sc.val(sim.run_one(sim.spawn("ref", op_sample, r)), "reference")[1]


class S01(SampScenario):
    prop = "S01"
    rule = ("2-7 saves and loads of one to three splits in one directory or the split cache, saves killed, interrupted or hit by a "
            "disk error at a chosen step, or 2-3 savers and loaders interleaved by a seeded scheduler with one optional crash; "
            "non-trivial: a fault took effect or a preemption happened")
    quick_runs = 900
    thorough_runs = 60000
    must_reach = ("killed", "overwrite", "blocked", "loaded", "overlap", "retry_ok")

    def run(self, sim):
        c = sim.c
        return self.concurrent(sim) if c.flip(1, 3, "concurrent") else self.history(sim)

    def target(self, sim, how, r):
        base = os.path.join(sim.root, "splits")
        if how != "cache":
            return os.path.join(base, "mine"), os.path.join(base, "mine")
        return base, None

    def history(self, sim):
        c = sim.c
        probes = {}
        how = c.pick(["dir", "cache"], "how")
        reqs = [good_req(sim, self, c) for _ in range(1 if how == "cache" else 1 + c.choose(3, "nreq"))]
        sim.trace += [f"split {i}: {show(r)}" for i, (r, _) in enumerate(reqs)]
        base = os.path.join(sim.root, "splits")
        if how == "cache":
            # where a save puts it
            r = reqs[0][0]
            p = sim.run_one(sim.spawn("where", op_save, r, os.path.join(sim.root, "probe"), False, "cache"))
            v = self.val(p, "save")
            if v[0] != "ok":
                raise Violation("save-error", f"saving {show(r)} into an empty cache fails: {v[1:]}")
            where = os.path.join(base, os.path.relpath(v[3], "probe"))
            self.loads(sim, os.path.join(sim.root, v[3]), v, "the split just saved")
        else:
            where = os.path.join(base, "mine")
        state = {"none"}  # possible contents: "none" (nothing complete), or an index of a request (undated content)
        hurt = 0
        for i in range(1 + c.choose(6, "nops")):
            if c.flip(1, 3, "load?"):
                state = self.observe(sim, where, reqs, state, f"load {i}", probes)
                continue
            k = c.choose(len(reqs), "req")
            ov = c.flip(1, 2, "overwrite")
            fk = {}
            if c.flip(3, 5, "faulty"):
                fk = dict(faults=("crash", "torn", "enospc", "errno", "interrupt", "memory"), max_faults=1, hint=c.pick([8, 3, 16], "hint"))
            f0 = sum(sim.fired.values())
            p = sim.run_one(sim.spawn(f"save{i}", op_save, reqs[k][0], base if how == "cache" else where, ov, how), **fk)
            hit = p.state == "crashed" or sum(sim.fired.values()) > f0
            hurt += hit
            sim.trace.append(f"save of split {k}{' with overwrite' if ov else ''}")
            if p.state == "crashed":
                probes["killed"] = 1
            v = None if p.state == "crashed" or p.result[0] != "ok" else p.result[1]
            if hit and not (v and v[0] == "ok"):
                if ov or "none" in state:
                    state = state | {k}
                continue
            v = self.val(p, f"save {i}") if not hit else v
            if v[0] == "ok":
                if not ov and "none" not in state:
                    raise Violation("overwritten", f"save {i} without overwrite replaced a stored split")
                if v[2] != reqs[k][1]:
                    raise Violation("not-reproducible", f"sampling {show(reqs[k][0])} again gives another split: {diff(reqs[k][1], v[2])}")
                if ov:
                    probes["overwrite"] = 1
                if "none" in state and len(state) > 1:
                    probes["retry_ok"] = 1
                self.loads(sim, where, v, f"the split save {i} stored")
                state = {k}
            elif v[0] == "exists":
                if ov:
                    raise Violation("save-error", f"save {i} with overwrite fails: {v[1]}")
                if state == {"none"}:
                    raise Violation("blocked", f"save {i} fails with FileExistsError though nothing is stored: {v[1]}")
                probes["blocked"] = 1
                # refused because a split is stored: then it can be loaded
                state = self.observe(sim, where, reqs, state - {"none"}, f"load after the refused save {i}", probes)
            else:
                raise Violation("save-error", f"save {i} of {show(reqs[k][0])} was not disturbed but failed: {v[1:]}")
        self.observe(sim, where, reqs, state, "final load", probes)
        p = sim.run_one(sim.spawn("last", op_save, reqs[0][0], base if how == "cache" else where, True, how))
        v = self.val(p, "last save")
        if v[0] != "ok":
            raise Violation("save-error", f"a save with overwrite after everything fails: {v[1:]}")
        self.loads(sim, where, v, "the split of the last save")
        return {"nontrivial": bool(hurt), "kind": how, "probes": probes, "key": show(reqs[0][0]) + how}

    def loads(self, sim, where, v, what):
        g = self.val(sim.run_one(sim.spawn("load", op_load, where)), "load")
        if g[0] != "ok":
            raise Violation("load-error", f"{what} cannot be loaded: {g[1:]}")
        if g[1] != v[1]:
            raise Violation("load-differs", f"{what} loads differently: {diff(v[1], g[1])}")

    def observe(self, sim, where, reqs, state, what, probes):
        g = self.val(sim.run_one(sim.spawn("load", op_load, where)), what)
        if g[0] == "ok":
            for k in sorted(state - {"none"}):
                if g[2] == reqs[k][1]:
                    probes["loaded"] = 1
                    return {k} if len([j for j in state - {"none"} if reqs[j][1] == reqs[k][1]]) == 1 else state - {"none"}
            raise Violation("load-differs", f"{what} returns none of the splits that may be stored ({sorted(map(str, state))}): "
                            + "; ".join(str(diff(reqs[k][1], g[2])) for k in range(len(reqs))))
        if "none" not in state:
            raise Violation("load-error", f"{what}: a stored split cannot be loaded: {g[1:]}")
        return {"none"}

    def concurrent(self, sim):
        c = sim.c
        probes = {}
        how = c.pick(["dir", "cache"], "how")
        reqs = [good_req(sim, self, c) for _ in range(1 if how == "cache" or c.flip(1, 2, "same") else 2)]
        sim.trace += [f"split {i}: {show(r)}" for i, (r, _) in enumerate(reqs)]
        base = os.path.join(sim.root, "splits")
        p = sim.run_one(sim.spawn("where", op_save, reqs[0][0], os.path.join(sim.root, "probe"), False, "cache"))
        v = self.val(p, "save")
        if v[0] != "ok":
            raise Violation("save-error", f"saving {show(reqs[0][0])} into an empty cache fails: {v[1:]}")
        where = os.path.join(base, os.path.relpath(v[3], "probe")) if how == "cache" else os.path.join(base, "mine")
        pre = c.flip(1, 2, "pre-existing")
        if pre:
            self.val(sim.run_one(sim.spawn("pre", op_save, reqs[0][0], base if how == "cache" else where, False, how)), "first save")
        procs, info = [], {}
        for i in range(2 + c.choose(2, "procs")):
            if i and c.flip(1, 3, "loader"):
                p = sim.spawn(f"L{i}", op_load, where)
                info[p.name] = None
            else:
                k, ov = c.choose(len(reqs), "req"), c.flip(2, 3, "overwrite")
                p = sim.spawn(f"S{i}", op_save, reqs[k][0], base if how == "cache" else where, ov, how)
                info[p.name] = (k, ov)
            procs.append(p)
        crash = c.flip(1, 4, "crash")
        sim.run_many(procs, faults=("crash", "torn"), max_faults=1 if crash else 0, max_switch=c.pick([6, 2, 12, 20], "switches"), hint=24,
                     stalls_left=c.choose(2, "stalls"))
        oks = []
        for p in procs:
            if p.state == "crashed":
                probes["killed"] = 1
                continue
            v = self.val(p, p.name)
            if info[p.name] is None:
                if v[0] == "ok" and v[2] not in [u for _, u in reqs]:
                    raise Violation("load-differs", f"{p.name}, loading during the saves, got a split nobody saved: {diff(reqs[0][1], v[2])}")
                if v[0] != "ok" and pre:
                    raise Violation("load-error", f"{p.name}: loading a stored split while it is overwritten fails: {v[1:]}")
                continue
            k, ov = info[p.name]
            if v[0] == "ok":
                oks.append(k)
                if ov:
                    probes["overwrite"] = 1
            elif v[0] == "exists" and not ov:
                probes["blocked"] = 1
            else:
                raise Violation("save-error", f"{p.name}: a save of split {k}{' with overwrite' if ov else ''} failed beside others: {v[1:]}")
        if pre and any(info[p.name] and not info[p.name][1] and p.state != "crashed" and p.result[1][0] == "ok" for p in procs):
            raise Violation("overwritten", "a save without overwrite replaced a stored split")
        if sim.switches:
            probes["overlap"] = 1
        g = self.val(sim.run_one(sim.spawn("load", op_load, where)), "load")
        if g[0] == "ok":
            if g[2] not in [u for _, u in reqs]:
                raise Violation("load-differs", f"after concurrent saves the directory holds a split nobody saved: {diff(reqs[0][1], g[2])}")
        elif oks or pre:
            raise Violation("load-error", f"after concurrent saves (some succeeded) nothing can be loaded: {g[1:]}")
        return {"nontrivial": sim.switches > 0, "kind": "concurrent", "probes": probes, "key": show(reqs[0][0]) + how + str(len(procs))}


HOWS = ("plain", "objects", "roundtrip", "bench", "strided", "npseed", "fp")


class S02(SampScenario):
    prop = "S02"
    rule = ("2-6 sampling requests that differ in one respect, each repeated in other processes with other clocks, ambient random "
            "state, histories and equivalent call styles; results must agree, keep the split invariants, equal fingerprints must mean "
            "equal splits, and k folds must partition the data; non-trivial: at least two distinct requests succeeded")
    quick_runs = 900
    thorough_runs = 80000
    must_reach = ("distinct", "folds", "graph", "official", "repeated", "interpreter")

    def setup(self):
        self.start_peer()

    def run(self, sim):
        c = sim.c
        probes = {}
        reqs = [gen_req(c)]
        for _ in range(1 + c.choose(5, "nreq")):
            reqs.append(neighbour(c, reqs[c.choose(len(reqs), "base")]))
        refs = [self.val(sim.run_one(sim.spawn("ref", op_sample, r)), "sample") for r in reqs]
        sim.trace += [f"request {i}: {show(r)}" for i, r in enumerate(reqs)]
        byfp = {}
        for i, (r, v) in enumerate(zip(reqs, refs)):
            if v[0] != "ok":
                continue
            if v[4]:
                raise Violation("bad-split", f"{show(r)}: {v[4]}")
            if v[2] in byfp and byfp[v[2]][0] != v[1]:
                raise Violation("fingerprint-collision", f"different splits under one fingerprint: {show(byfp[v[2]][1])} and {show(r)}")
            for r2, v2 in zip(reqs[:i], refs[:i]):
                if v2[0] == "ok" and v2[2] == v[2] and not _same_meaning(r, r2):
                    raise Violation("fingerprint-collision", f"different requests share a fingerprint: {show(r2)} and {show(r)}")
            byfp.setdefault(v[2], (v[1], r))
            probes["graph" if r["d"]["kind"] != "inductive" else "official" if r["d"]["test"] else "plain"] = 1
        order = [c.choose(len(reqs), "again") for _ in range(1 + c.choose(4, "repeat"))]
        for j, i in enumerate(order):
            how = c.pick(HOWS, "how")
            hist = tuple((reqs[c.choose(len(reqs), "hist")], "plain") for _ in range(c.choose(3, "nhist")))
            if c.flip(1, 4, "other-interpreter"):
                kind, v = self.peer.call(op_sample, reqs[i], how, hist, root=sim.root)
                if kind != "ok":
                    raise AssertionError(f"harness: {v}")
                how += ", other interpreter"
                probes["interpreter"] = 1
            else:
                p = sim.spawn(f"again{j}", op_sample, reqs[i], how, hist, skew=c.pick([0.0, 1e5, -4e7, 3e8], "skew"))
                v = self.val(sim.run_one(p), "repeat")
            a, b = refs[i], v
            if a[0] != b[0] or (a[0] == "err" and a[1] != b[1]) or (a[0] == "ok" and a[1:] != b[1:]):
                raise Violation("not-reproducible", f"{show(reqs[i])} ({how}, after {len(hist)} others) gives another result than before: "
                                f"{diff(a[1], b[1]) if a[0] == b[0] == 'ok' else (a[0:3] if a[0] == 'err' else a[0], b[0:3] if b[0] == 'err' else b[0])}")
            probes["repeated"] = 1
        r = reqs[c.choose(len(reqs), "folds-of")]
        if r["split"]["kind"] == "kfold" and not (r["d"]["kind"].startswith("masks") and r["pol"].get("use_official_graph_masks", True)):
            k = r["split"].get("k", 5)
            got = []
            own = True
            for f in range(k):
                q = {**r, "split": {**r["split"], "fold": f}, "lab": {}, "imb": {}}
                v = self.val(sim.run_one(sim.spawn(f"fold{f}", op_sample, q)), "fold")
                if v[0] != "ok":
                    own = None
                    break
                res = _sets(v)
                got += res[2] if res[3] else res[1]
            if own:
                probes["folds"] = 1
                if sorted(got) != list(range(r["d"]["n"])):
                    raise Violation("folds", f"{show(r)}: the {k} folds do not partition the data: {sorted(got)}")
        ok = {repr(r) for r, v in zip(reqs, refs) if v[0] == "ok"}
        if len(ok) > 1:
            probes["distinct"] = 1
        return {"nontrivial": len(ok) > 1, "kind": reqs[0]["d"]["kind"], "probes": probes, "key": repr(reqs)}


def _sets(v):
    return v[5]


def _same_meaning(a, b):
    from modssc.sampling.plan import SamplingPlan

    if a["d"] != b["d"] or a["seed"] != b["seed"]:
        return False
    fa, fb = a["lab"].get("fixed_indices"), b["lab"].get("fixed_indices")
    if fa != fb:
        return False

    def norm(r):
        return SamplingPlan.from_dict({"split": r["split"], "labeling": {k: v for k, v in r["lab"].items() if k != "fixed_indices"},
                                       "imbalance": r["imb"], "policy": r["pol"]})

    return fa == "some" or norm(a) == norm(b)


SCENARIOS = {s.prop: s() for s in (S01, S02)}
