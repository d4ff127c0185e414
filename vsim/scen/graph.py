"""Graph construction and graph views over their disk caches."""

from __future__ import annotations

import hashlib
import os

from ..canon import canon, diff
from ..core import Violation
from . import Scenario

OMIT = "<omitted>"

SPEC = {
    "scheme": ["knn", "epsilon", "anchor"],
    "metric": ["euclidean", "cosine"],
    "k": [3, 1, 2, 20],
    "radius": [1.0, 0.4, 2.5],
    "symmetrize": ["none", "or", "mutual"],
    "weights": [["binary", None], ["heat", 0.5], ["heat", 2.0], ["cosine", None]],
    "normalize": ["none", "rw", "sym"],
    "self_loops": [True, False],
    "backend": ["numpy", "sklearn", "auto"],
    "chunk_size": [4, 3, 1, 512],
    "n_anchors": [None, 3, 5],
    "anchors_k": [2, 1, 5],
    "anchors_method": ["random", "kmeans"],
    "candidate_limit": [1000, 3],
    "feature_field": ["features.X", "raw.X"],
}
VIEWS = {
    "views": [["attr"], ["diffusion"], ["struct"], ["attr", "diffusion"], ["diffusion", "struct"], ["struct", "attr"]],
    "diffusion_steps": [5, 2, 0],
    "diffusion_alpha": [0.1, 0.0, 0.9],
    "struct_method": ["deepwalk", "node2vec"],
    "struct_dim": [3, 2, 20],
    "walk_length": [4, 6],
    "num_walks_per_node": [2, 1],
    "window_size": [2, 1],
    "p": [1.0, 0.25],
    "q": [1.0, 4.0],
}
XKINDS = ("normal", "dup", "f64", "int", "zero", "single", "nan", "fortran")


def _rng(*a):
    import numpy as np

    return np.random.Generator(np.random.PCG64(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")))


def features(kind, seed, part=""):
    import numpy as np

    n = 1 if kind == "single" else 9 + seed % 3
    if part == "test":
        n = 4
    g = _rng("X", seed, part, "dup" if kind == "dup" else "")
    X = g.normal(size=(n, 3)).astype(np.float32)
    if kind == "dup":
        X = np.round(X)
    elif kind == "f64":
        X = X.astype(np.float64)
    elif kind == "int":
        X = np.round(X * 4).astype(np.int64)
    elif kind == "zero":
        X[0] = 0.0
    elif kind == "nan":
        X[1, 1] = np.nan
    elif kind == "fortran":
        X = np.asfortranarray(X)
    return X


def gen_fields(c, pool, p_each=(1, 2)):
    out = {}
    for k, v in pool.items():
        if c.flip(*p_each, "set?"):
            out[k] = v[c.choose(len(v), k)]
    return out


def gen_graph(c):
    spec = gen_fields(c, SPEC)
    spec.setdefault("k", 3)
    spec["chunk_size"] = SPEC["chunk_size"][c.choose(4, "chunk")]
    if c.flip(1, 2, "numpy"):
        spec["backend"] = "numpy"
    return {"t": "graph", "x": [XKINDS[c.weighted([8, 3, 1, 2, 1, 1, 1, 1], "xkind")], c.choose(3, "xseed")],
            "spec": spec, "seed": c.choose(3, "seed"), "dsfp": c.flip(1, 3, "dsfp"), "prefp": c.pick([None, "p1", "p2"], "prefp")}


def gen_req(c, views=True, bench=True):
    g = gen_graph(c)
    w = c.weighted([4, 3 if views else 0, 2 if bench else 0], "request")
    if w == 1:
        return {"t": "views", "g": g, "x": g["x"] if c.flip(2, 3, "same-x") else [g["x"][0], c.choose(3, "xseed")],
                "bare": c.flip(1, 3, "bare"), "sparse": c.flip(1, 8, "sparse"),
                "spec": {"views": VIEWS["views"][c.choose(6, "views")], **{k: v for k, v in gen_fields(c, VIEWS).items() if k != "views"}},
                "seed": c.choose(3, "vseed")}
    if w == 2:
        if g["x"][0] == "single":
            g["x"][0] = "normal"
        return {**g, "t": "bench", "test": c.flip(1, 2, "include_test"), "split": c.flip(3, 4, "has-test"), "dsfp": True}
    return g


def neighbour(c, req):
    import copy

    d = copy.deepcopy(req)
    if d["t"] == "views":
        w = c.weighted([4, 2, 2, 2, 1], "neighbour")
        if w == 0:
            k = sorted(VIEWS)[c.choose(len(VIEWS), "field")]
            d["spec"][k] = VIEWS[k][(VIEWS[k].index(d["spec"].get(k, VIEWS[k][0])) + 1 + c.choose(len(VIEWS[k]) - 1, "v")) % len(VIEWS[k])]
        elif w == 1:
            d["seed"] = (d["seed"] + 1) % 3
        elif w == 2:
            d["x"][1] = (d["x"][1] + 3) % 6  # other features, same number of nodes
        elif w == 3:
            d["g"] = neighbour(c, d["g"])
            if features(*d["g"]["x"]).shape[0] != features(*d["x"]).shape[0]:
                d["x"] = list(d["g"]["x"])
        else:
            d["bare"] = not d["bare"]
        return d
    w = c.weighted([5, 2, 2, 2, 2], "neighbour")
    if d["t"] == "bench" and c.flip(1, 2, "toggle-test"):
        d["test"] = not d["test"]
        return d
    if w == 0:
        k = sorted(SPEC)[c.choose(len(SPEC), "field")]
        cur = d["spec"].get(k, OMIT)
        i = SPEC[k].index(cur) if cur in SPEC[k] else 0
        d["spec"][k] = SPEC[k][(i + 1 + c.choose(len(SPEC[k]) - 1, "v")) % len(SPEC[k])]
    elif w == 1:
        d["seed"] = (d["seed"] + 1) % 3
    elif w == 2:
        d["x"][1] = (d["x"][1] + 3) % 6
    elif w == 3:
        d["prefp"] = {None: "p1", "p1": "p2", "p2": None}[d["prefp"]]
    elif d["t"] == "graph":
        d["dsfp"] = not d["dsfp"]
    else:
        d["split"] = not d["split"]
    return d


def show(r):
    if r["t"] == "views":
        return f"views {r['spec']} seed={r['seed']} X={r['x']}{' sparse' if r['sparse'] else ''}{' no-fingerprint' if r['bare'] else ''} of ({show(r['g'])})"
    return (f"{r['t']} {r['spec']} seed={r['seed']} X={r['x']} dsfp={r['dsfp']} prefp={r['prefp']}"
            + (f" include_test={r['test']} has_test={r['split']}" if r["t"] == "bench" else ""))


def _spec(d):
    from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

    d = dict(d)
    if "weights" in d:
        d["weights"] = GraphWeightsSpec(*d["weights"])
    return GraphBuilderSpec(**d)


def _dsfp(req, X, test=None):
    if not req["dsfp"]:
        return None
    return hashlib.sha256(repr(canon((X, test))).encode()).hexdigest()


def run_req(req, cache, root, shard=None, resume=True):
    """One request; returns the outcome in canonical form."""
    import numpy as np

    if req["t"] == "graph":
        from modssc.graph import build_graph

        X = features(*req["x"])
        b = canon(X)
        # what went into the features is part of their preprocessing fingerprint
        g = build_graph(X, spec=_spec(req["spec"]), seed=req["seed"], dataset_fingerprint=_dsfp(req, X),
                        preprocess_fingerprint=req["prefp"], cache=cache, cache_dir=os.path.join(root, "graphs") if cache else None,
                        edge_shard_size=shard, resume=resume)
        if canon(X) != b:
            return ("mutated", diff(b, canon(X)))
        return ("ok", canon(g))
    if req["t"] == "bench":
        from bench.orchestrators.graph import build
        from modssc.data_loader.types import LoadedDataset, Split
        from modssc.preprocess.store import ArtifactStore
        from modssc.preprocess.types import PreprocessResult

        import modssc.preprocess.plan as pl

        X, T = features(*req["x"]), features(req["x"][0], req["x"][1], "test")
        tr = Split(X=X, y=np.zeros(len(X), dtype=np.int64))
        te = Split(X=T, y=np.zeros(len(T), dtype=np.int64)) if req["split"] else None
        stores = [ArtifactStore(), ArtifactStore() if te is not None else None]
        for s, sp in zip(stores, (tr, te)):
            if s is not None:
                s.set("features.X", sp.X)
                s.set("raw.X", sp.X)
        pre = PreprocessResult(dataset=LoadedDataset(train=tr, test=te, meta={}), plan=pl.PreprocessPlan(steps=()),
                               preprocess_fingerprint=req["prefp"] or "p0", train_artifacts=stores[0], test_artifacts=stores[1],
                               cache_dir=None) if True else None
        spec = _spec(req["spec"]).to_dict()
        g = build(pre, spec_dict=spec, seed=req["seed"], dataset_fingerprint=_dsfp(req, X, T if te is not None else None),
                  cache=cache, cache_dir=os.path.join(root, "graphs") if cache else None, include_test=req["test"])
        return ("ok", canon(g))
    from modssc.graph import GraphArtifact, GraphFeaturizerSpec, NodeDataset, build_graph, graph_to_views

    gr = req["g"]
    GX = features(*gr["x"])
    g = build_graph(GX, spec=_spec(gr["spec"]), seed=gr["seed"], dataset_fingerprint=_dsfp(gr, GX),
                    preprocess_fingerprint=gr["prefp"], cache=False)
    if req["bare"]:
        g = GraphArtifact(n_nodes=g.n_nodes, edge_index=g.edge_index, edge_weight=g.edge_weight, directed=g.directed, meta={})
    X = features(*req["x"])
    n = X.shape[0]
    if req["sparse"]:
        import scipy.sparse as sp

        X = sp.csr_matrix(X)
    r = _rng("y", n)
    ds = NodeDataset(X=X, y=r.integers(0, 3, n), graph=g, masks={"train": r.random(n) < 0.5})
    before = canon(ds)
    v = dict(req["spec"])
    v["views"] = tuple(v["views"])
    out = graph_to_views(ds, spec=GraphFeaturizerSpec(**v), seed=req["seed"], cache=cache,
                         cache_dir=os.path.join(root, "views") if cache else None)
    if canon(ds) != before:
        return ("mutated", diff(before, canon(ds)))
    return ("ok", (canon(out), tuple(out.views)))


def op_req(rt, req, cache, kw=None):
    try:
        return run_req(req, cache, os.path.join(rt.root, "c"), **(kw or {}))
    except Exception as e:
        from ..core import tb_tail

        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))


def op_purge(rt):
    from modssc.graph.cache import GraphCache, ViewsCache

    root = os.path.join(rt.root, "c")
    n = GraphCache(root=__import__("pathlib").Path(root) / "graphs").purge()
    return n, GraphCache(root=__import__("pathlib").Path(root) / "graphs").list(), ViewsCache.__name__


def cache_files(root):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)


class GraphScenario(Scenario):
    real = ["modssc.graph (builder, numpy and sklearn backends, anchor scheme, weights, caches, views)",
            "bench.orchestrators.graph", "numpy/scipy/sklearn", "real file system below a scratch directory"]
    stub = ["clock", "entropy"]
    assumptions = [
        "a dataset or preprocess fingerprint passed in identifies the features it stands for (as the pipeline's does)",
        "reference = the same request with cache=False in a fresh process",
        "a crash is a killed process: what was handed to the kernel survives, user-space buffers are lost",
        "features up to 4 MB (above, the fallback fingerprint samples them by design)",
        "the faiss backend is not installed here and is not exercised",
    ]

    def preload(self):
        import scipy.sparse  # noqa: F401
        import sklearn.cluster  # noqa: F401
        import sklearn.decomposition  # noqa: F401
        import sklearn.neighbors  # noqa: F401

        import bench.orchestrators.graph  # noqa: F401
        import modssc.graph  # noqa: F401
        import modssc.graph.construction.services.service  # noqa: F401
        import modssc.graph.featurization.api  # noqa: F401
        import modssc.preprocess.store  # noqa: F401

    def val(self, p, when):
        kind, val = p.result
        if kind == "hang":
            raise Violation("stuck", f"{when}: {val}")
        if kind != "ok":
            raise AssertionError(f"harness: {p.result}")
        return val

    def same(self, req, ref, got, when):
        if got[0] == "mutated":
            raise Violation("input-modified", f"{when}: {show(req)} changed its input: {got[1]}")
        if ref[0] == "err":
            if got[:3] != ref[:3]:
                raise Violation("differs-from-uncached", f"{when}: {show(req)}: without cache it fails with {ref[1:3]}, with cache: {got[:3]}")
            return
        if got[0] == "err":
            raise Violation("cache-error", f"{when}: {show(req)} fails with the cache: {got[1:]}")
        if got != ref:
            raise Violation("differs-from-uncached", f"{when}: {show(req)}: result differs from the one without cache: {diff(ref, got)}")

    def ref(self, sim, req):
        v = self.val(sim.run_one(sim.spawn("ref", op_req, req, False)), "uncached")
        if v[0] == "mutated":
            raise Violation("input-modified", f"{show(req)} changed its input: {v[1]}")
        return v

    def knobs(self, c, req):
        if req["t"] != "graph":
            return {}
        return {"shard": c.pick([None, 3, 1, 7, None], "shard"), "resume": not c.flip(1, 4, "no-resume")}


def _key(reqs):
    return hashlib.sha256(repr(reqs).encode()).hexdigest()[:12]


class G01(GraphScenario):
    prop = "G01"
    rule = ("2-6 runs of one or two graph or view requests over one cache with varying shard sizes and resumption, each possibly "
            "killed, interrupted or hit by a disk error at a chosen step, files lost or truncated and caches purged in between; "
            "every run that ends undisturbed and the final ones must equal the uncached result; non-trivial: a fault or damage took effect")
    quick_runs = 900
    thorough_runs = 60000
    must_reach = ("killed", "damaged", "warm_equal", "resumed", "reused")

    def run(self, sim):
        c = sim.c
        probes = {}
        reqs = [gen_req(c)]
        if c.flip(1, 3, "second"):
            reqs.append(neighbour(c, reqs[0]))
        refs = [self.ref(sim, r) for r in reqs]
        sim.trace += [f"request {i}: {show(r)}" for i, r in enumerate(reqs)]
        hurt = 0
        croot = os.path.join(sim.root, "c")
        for i in range(1 + c.choose(5, "nops")):
            k = c.choose(len(reqs), "req")
            if c.flip(1, 12, "purge"):
                p = sim.run_one(sim.spawn(f"purge{i}", op_purge))
                v = self.val(p, "purge")
                if v[1]:
                    raise Violation("purge", f"entries left after a purge: {v[1]}")
                sim.trace.append("graph cache purged")
                continue
            f0 = sum(sim.fired.values())
            fk = {}
            if c.flip(2, 3, "faulty"):
                fk = dict(faults=("crash", "torn", "enospc", "errno", "interrupt", "memory"), max_faults=1,
                          hint=c.pick([30, 10, 80], "hint"))
            if any("_work" in f for f in cache_files(croot)):
                probes["resumed"] = 1
            p = sim.run_one(sim.spawn(f"run{i}", op_req, reqs[k], True, self.knobs(c, reqs[k])), **fk)
            hit = sum(sim.fired.values()) > f0
            hurt += hit
            if p.state == "crashed":
                probes["killed"] = 1
            elif hit:
                kind, val = p.result
                if kind == "ok" and val[0] == "ok":
                    self.same(reqs[k], refs[k], val, f"run {i} (hit by a fault, but it returned)")
            else:
                self.same(reqs[k], refs[k], self.val(p, f"run {i}"), f"run {i}")
                if i:
                    probes["warm_equal"] = 1
            if c.flip(1, 4, "damage"):
                fs = cache_files(croot)
                for _ in range(1 + c.choose(2, "ndamage")):
                    if not fs:
                        break
                    f = fs[c.choose(len(fs), "file")]
                    if not os.path.exists(f):
                        continue
                    how = c.choose(3, "how")
                    sz = os.path.getsize(f)
                    if how == 0:
                        os.unlink(f)
                    else:
                        with open(f, "r+b") as h:
                            h.truncate(0 if how == 1 else sz * c.choose(8, "keep") // 8)
                    sim.fired[["lost_file", "emptied_file", "truncated_file"][how]] += 1
                    hurt += 1
                    probes["damaged"] = 1
                    sim.trace.append(f"{['lost', 'emptied', 'truncated'][how]}: {os.path.relpath(f, sim.root)}")
        for k, r in enumerate(reqs):
            for rep in range(2):
                n0 = len(sim.log)
                p = sim.run_one(sim.spawn(f"final{k}.{rep}", op_req, r, True, self.knobs(c, r)))
                self.same(r, refs[k], self.val(p, "final"), f"final run {rep} after the faults")
                if rep and refs[k][0] == "ok" and not r.get("sparse"):
                    # a complete entry is reused: nothing is written again
                    w = [e for _, e in sim.log[n0:] if e[0] in ("write", "rename", "openw")]
                    if w:
                        raise Violation("not-reused", f"{show(r)}: a complete cache entry was built again: {w[:3]}")
                    probes["reused"] = 1
        return {"nontrivial": bool(hurt), "kind": reqs[0]["t"], "probes": probes, "key": _key(reqs)}


class G02(GraphScenario):
    prop = "G02"
    rule = ("2-4 processes run equal or neighbouring graph or view requests over one cache with different shard sizes under a "
            "seeded preemptive schedule (stalls, optionally one crash), cold, warm or partly lost; every result must equal its "
            "uncached result; non-trivial: at least one preemption between live processes")
    quick_runs = 900
    thorough_runs = 60000
    must_reach = ("overlap", "crashed", "same_request")

    def run(self, sim):
        c = sim.c
        probes = {}
        base = gen_req(c)
        n = 2 + c.weighted([4, 2, 1], "procs")
        reqs = [base]
        for _ in range(n - 1):
            reqs.append(neighbour(c, base) if c.flip(1, 4, "other") else base)
        uniq = []
        for r in reqs:
            if r not in uniq:
                uniq.append(r)
        refs = [self.ref(sim, r) for r in uniq]
        sim.trace += [f"P{i}: {show(r)}" for i, r in enumerate(reqs)]
        if len(uniq) < n:
            probes["same_request"] = 1
        if c.flip(1, 4, "warm"):
            fk = dict(faults=("crash",), max_faults=1, hint=30) if c.flip(1, 2, "half") else {}
            p = sim.run_one(sim.spawn("pre", op_req, base, True, self.knobs(c, base)), **fk)
            if p.state != "crashed":
                self.same(base, refs[0], self.val(p, "first"), "first run")
            if c.flip(1, 2, "lose"):
                fs = cache_files(os.path.join(sim.root, "c"))
                if fs:
                    f = fs[c.choose(len(fs), "file")]
                    os.unlink(f)
                    sim.trace.append(f"lost: {os.path.relpath(f, sim.root)}")
        procs = [sim.spawn(f"P{i}", op_req, r, True, self.knobs(c, r)) for i, r in enumerate(reqs)]
        crash = c.flip(1, 4, "crash")
        sim.run_many(procs, faults=("crash", "torn"), max_faults=1 if crash else 0, max_switch=c.pick([6, 2, 12, 25], "switches"),
                     hint=40, stalls_left=c.choose(2, "stalls"))
        for p, r in zip(procs, reqs):
            if p.state == "crashed":
                probes["crashed"] = 1
                continue
            self.same(r, refs[uniq.index(r)], self.val(p, p.name), f"{p.name} (concurrent)")
        if sim.switches:
            probes["overlap"] = 1
        for k, r in enumerate(uniq):
            p = sim.run_one(sim.spawn(f"final{k}", op_req, r, True, self.knobs(c, r)))
            self.same(r, refs[k], self.val(p, "final"), "a run after the concurrent ones")
        return {"nontrivial": sim.switches > 0, "kind": base["t"], "probes": probes, "key": _key(reqs)}


class G03(GraphScenario):
    prop = "G03"
    rule = ("3-8 graph, view and bench graph requests that differ in one respect (a spec field, the seed, the features, the "
            "preprocessing, the splits covered), one after another over one shared cache; each must equal its uncached result, "
            "equal fingerprints must mean equal results; non-trivial: at least two distinct requests succeeded")
    quick_runs = 600
    thorough_runs = 80000
    must_reach = ("distinct", "views", "bench", "graph")

    def run(self, sim):
        c = sim.c
        probes = {}
        reqs = [gen_req(c)]
        for _ in range(2 + c.choose(6, "nreq")):
            nb = neighbour(c, reqs[c.choose(len(reqs), "base")])
            if c.flip(1, 4, "twice"):
                nb = neighbour(c, nb)
            reqs.append(nb)
        refs = [self.ref(sim, r) for r in reqs]
        sim.trace += [f"request {i}: {show(r)}" for i, r in enumerate(reqs)]
        probes[reqs[0]["t"]] = 1
        byfp = {}
        for r, v in zip(reqs, refs):
            if v[0] != "ok":
                continue
            fp = _find(v[1], "fingerprint")
            data = v[1]
            if fp is None:
                raise Violation("no-fingerprint", f"{show(r)} has no fingerprint")
            if fp in byfp and byfp[fp][0] != data:
                raise Violation("fingerprint-collision", f"different results under one fingerprint: {show(byfp[fp][1])} and {show(r)}: "
                                f"{diff(byfp[fp][0], data)}")
            byfp.setdefault(fp, (data, r))
        order = list(range(len(reqs)))
        for _ in range(c.choose(3, "repeat")):
            order.append(c.choose(len(reqs), "again"))
        for j, i in enumerate(order):
            p = sim.run_one(sim.spawn(f"req{j}", op_req, reqs[i], True, self.knobs(c, reqs[i])))
            self.same(reqs[i], refs[i], self.val(p, f"request {i}"), f"after requests {order[:j]}, request {i}")
        ok = {repr(r) for r, v in zip(reqs, refs) if v[0] == "ok"}
        if len(ok) > 1:
            probes["distinct"] = 1
        return {"nontrivial": len(ok) > 1, "kind": reqs[0]["t"], "probes": probes, "key": _key(reqs)}


def _find(x, name):
    """Value of the first mapping entry called name."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == name and isinstance(x[1], str):
            return x[1]
        for v in x:
            r = _find(v, name)
            if r is not None:
                return r
    return None


SCENARIOS = {s.prop: s() for s in (G01, G02, G03)}
