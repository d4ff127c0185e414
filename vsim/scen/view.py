"""Feature views: what each view contains, and views mixed with preprocessing over one cache."""

from __future__ import annotations

import copy
import hashlib
import os

from ..canon import canon, diff
from ..core import Violation
from .prep import KINDS, PrepScenario, _rng, build_dataset, gen_plan
from .prep import neighbour as prep_neighbour

VKINDS = ("tab", "wide", "dictx", "tensor", *[k for k in KINDS if k not in ("tab", "ragged", "audio")], "audio")
FIT = (range(12), (0, 2, 4, 6, 8), range(6))
NAMES = ("a", "b", "ç", "view a", "0")


def build(kind, seed):
    import numpy as np

    if kind in ("wide", "dictx", "tensor"):
        ds = build_dataset("graph" if kind == "dictx" else "tab", seed)
        ds.meta["name"] = kind
        ds.meta["dataset_fingerprint"] = hashlib.sha256(f"{kind}{seed}".encode()).hexdigest()
        for name, s in (("train", ds.train), ("test", ds.test)):
            if s is None:
                continue
            n = len(s.y)
            X = _rng(kind, seed, name, "wide").normal(size=(n, 11)).astype(np.float32)
            if kind == "tensor":
                import torch

                X = torch.from_numpy(X)
            if kind == "dictx":
                X = {"x": X, "edge_index": s.edges, "extra": np.arange(n)}
            object.__setattr__(s, "X", X)
        return ds
    return build_dataset(kind, seed)


def feats(X):
    from modssc.utils.numpy import to_numpy

    if isinstance(X, dict) and "x" in X:
        X = X["x"]
    return to_numpy(X)


def gen_cols(c, names):
    m = c.weighted([4, 3, 2, 2] if names else [4, 3, 2, 0], "mode")
    if m == 0:
        d = {"mode": "random"}
        if c.flip(2, 3, "frac?"):
            d["fraction"] = c.pick([0.5, 0.3, 0.75, 1.0, 0.01], "fraction")
        if c.flip(1, 3, "off?"):
            d["seed_offset"] = c.pick([1, 7, 1 << 20], "offset")
        return d
    if m == 1:
        return {"mode": "indices", "indices": [[0], [1, 0], [1], [2, 0], [0, 1, 2], [1, 2], [2, 1], [2, 3], [9], [0, 0]][c.choose(10, "indices")]}
    if m == 2:
        return None if c.flip(1, 2, "none") else {"mode": "all"}
    return {"mode": "complement", "complement_of": names[c.choose(len(names), "of")]}


GOOD = {
    "tab": [["tabular.impute"], ["tabular.impute", "tabular.standard_scaler"], ["tabular.impute", ["core.random_projection", {"n_components": 3}]],
            ["tabular.impute", ["core.pca", {"n_components": 2}]], ["core.copy_raw"], ["tabular.impute", "core.to_torch"]],
    "mixed": [["tabular.one_hot"], ["tabular.one_hot", "tabular.standard_scaler"], ["core.copy_raw"]],
    "text": [["text.ensure_strings", ["text.tfidf", {"max_features": 5}]], ["text.ensure_strings", "text.tfidf"],
             ["text.ensure_strings", "embeddings.auto"]],
    "vision": [["core.copy_raw", "core.ensure_2d"], ["core.copy_raw"], ["vision.normalize"], ["core.copy_raw", "core.ensure_2d", ["core.pca", {"n_components": 3}]]],
    "audio": [["core.copy_raw", ["core.random_projection", {"n_components": 5}]], ["core.copy_raw", ["core.pca", {"n_components": 3}]], ["embeddings.auto"]],
    "graph": [["core.copy_raw"], ["core.copy_raw", "tabular.standard_scaler"], [["graph.edge_sparsify", {"keep_fraction": 0.5}]],
              ["core.copy_raw", ["core.random_projection", {"n_components": 3}]], ["core.copy_raw", "labels.encode"]],
}


def plan_for(c, kind):
    """Mostly a plan that works on this kind of data, sometimes any plan."""
    if c.flip(1, 4, "any-plan"):
        return gen_plan(c, kind)
    g = GOOD[kind]
    return {"steps": [[s, {}] if isinstance(s, str) else [s[0], dict(s[1])] for s in g[c.choose(len(g), "good-plan")]], "out": "features.X"}


def gen_views(c, kind, pre_plan):
    n = 2 + c.weighted([4, 2, 1], "nviews")
    off = c.choose(len(NAMES), "names")
    out = []
    for i in range(n):
        v = {"name": NAMES[(off + i) % len(NAMES)], "cols": gen_cols(c, [w["name"] for w in out]), "pre": None}
        if c.flip(2, 5, "pre"):
            v["pre"] = copy.deepcopy(pre_plan) if c.flip(1, 2, "same-pre") else plan_for(c, kind)
        if c.flip(1, 4, "meta"):
            v["meta"] = {"role": ["x", "y"][c.choose(2, "role")]}
        out.append(v)
    return {"t": "views", "views": out, "pick": c.choose(n, "pick"), "seed": c.choose(3, "vseed"), "fit": c.flip(1, 3, "vfit")}


def pk(kind):
    return {"wide": "tab", "tensor": "tab", "dictx": "graph"}.get(kind, kind)


def gen_cfg(c):
    kind = VKINDS[c.weighted([6, 4, 2, 1] + [2] * (len(VKINDS) - 4), "kind")]
    plan = plan_for(c, pk(kind))
    stages = []
    if kind in ("text", "audio"):  # one-dimensional until preprocessed
        stages.append({"t": "prep", "plan": copy.deepcopy(plan), "seed": 0})
    for i in range(1 + c.weighted([3, 4, 2], "depth")):
        if c.flip(1, 2, "stage"):
            stages.append({"t": "prep", "plan": copy.deepcopy(plan) if c.flip(1, 2, "same") else plan_for(c, pk(kind)), "seed": c.choose(2, "pseed"), "fit": c.choose(3, "pfit")})
        else:
            stages.append(gen_views(c, pk(kind), plan))
    if not any(s["t"] == "views" for s in stages):
        stages.insert(c.choose(len(stages) + 1, "at"), gen_views(c, pk(kind), plan))
    return {"kind": kind, "ds": 1 + c.choose(3, "ds"), "stages": stages}


def neighbour(c, cfg):
    """A configuration that differs from cfg in one respect."""
    d = copy.deepcopy(cfg)
    vs = [s for s in d["stages"] if s["t"] == "views"]
    ps = [s for s in d["stages"] if s["t"] == "prep"]
    s = vs[c.choose(len(vs), "which")]
    w = c.weighted([3, 3, 2, 2, 1, 1, 1, 1], "neighbour")
    if w == 0:
        i = c.choose(len(s["views"]), "view")
        s["views"][i]["cols"] = gen_cols(c, [v["name"] for v in s["views"][:i]])
    elif w == 1:
        s["pick"] = (s["pick"] + 1) % len(s["views"])
    elif w == 2:
        s["seed"] = (s["seed"] + 1) % 3
    elif w == 3 and ps:
        p = ps[c.choose(len(ps), "prep")]
        if c.flip(1, 3, "fit?"):
            p["fit"] = (p.get("fit", 0) + 1) % 3
            return d
        p["plan"] = prep_neighbour(c, {"kind": pk(d["kind"]), "ds": 1, "plans": [p["plan"]], "seed": 0, "fit": 0})["plans"][0]
    elif w == 4:
        d["ds"] = 1 + d["ds"] % 3
    elif w == 5 and len(d["stages"]) > 1:
        i = c.choose(len(d["stages"]), "del")
        if d["stages"][i]["t"] == "prep" or len(vs) > 1:
            del d["stages"][i]
    elif w == 6:
        s["fit"] = not s["fit"]
    else:
        d["stages"].append({"t": "prep", "plan": plan_for(c, pk(d["kind"])), "seed": 0})
    return d


def rearranged(c, cfg):
    """The same request, its last views stage with other views around the picked one (which must not matter)."""
    d = copy.deepcopy(cfg)
    s = [s for s in d["stages"] if s["t"] == "views"][-1]
    vs = s["views"]
    need, x = {vs[s["pick"]]["name"]}, vs[s["pick"]]
    while x["cols"] and x["cols"]["mode"] == "complement":
        x = next(v for v in vs if v["name"] == x["cols"]["complement_of"])
        need.add(x["name"])
    keep = [v for v in vs if v["name"] in need]
    for j in range(2):
        pos = c.choose(len(keep) + 1, "pos")
        keep.insert(pos, {"name": f"other{j}", "cols": None if c.flip(1, 2, "all") else {"mode": "random", "fraction": 0.4}, "pre": None})
    s["pick"] = next(i for i, v in enumerate(keep) if v["name"] == vs[s["pick"]]["name"])
    s["views"] = keep
    return d


def show(cfg):
    def pl(p):
        return "[" + ", ".join(s + ("" if not ps else str(ps)) for s, ps in p["steps"]) + f"]->{p['out']}"

    def st(s):
        if s["t"] == "prep":
            return f"preprocess {pl(s['plan'])} seed={s['seed']} fit={s.get('fit', 0)}"
        return (f"views seed={s['seed']} " + "; ".join(f"{v['name']}: {v['cols']}" + (f" of {pl(v['pre'])}" if v["pre"] else "") for v in s["views"])
                + f" taking {s['views'][s['pick']]['name']}")

    return f"{cfg['kind']}{cfg['ds']} " + " then ".join(st(s) for s in cfg["stages"])


def _pp(plan):
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    return PreprocessPlan(steps=tuple(StepConfig(step_id=s, params=p) for s, p in plan["steps"]), output_key=plan["out"])


def _vp(st):
    from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan

    def cs(d):
        if d is None:
            return None
        d = dict(d)
        if "indices" in d:
            d["indices"] = tuple(d["indices"])
        return ColumnSelectSpec(**d)

    return ViewsPlan(views=tuple(ViewSpec(name=v["name"], preprocess=_pp(v["pre"]) if v["pre"] else None, columns=cs(v["cols"]), meta=v.get("meta"))
                                 for v in st["views"]))


def check(ds, st, plan, r, fit):
    """What every view must contain; None or what is wrong."""
    import numpy as np

    from modssc.preprocess.services.pipeline import preprocess

    names = [v.name for v in plan.views]
    if list(r.views) != names or list(r.columns) != names:
        return f"views {list(r.views)} / columns {list(r.columns)} for the plan {names}"
    nf = {}
    for v in plan.views:
        base = ds if v.preprocess is None else preprocess(ds, v.preprocess, seed=st["seed"], fit_indices=fit if fit is not None
                                                          else np.arange(len(ds.train.y)), cache=False).dataset
        got, cols = r.views[v.name], np.asarray(r.columns[v.name])
        X = feats(base.train.X)
        F = nf[v.name] = int(X.shape[1])
        spec = v.columns
        mode = spec.mode if spec is not None else "all"
        if cols.dtype.kind != "i" or cols.ndim != 1 or cols.size == 0 or cols.min() < 0 or cols.max() >= F or (np.diff(cols) <= 0).any():
            return f"{v.name}: columns {cols.tolist()} are not a sorted selection of {F}"
        if mode == "all" and cols.size != F:
            return f"{v.name}: 'all' selected {cols.tolist()} of {F}"
        if mode == "indices" and cols.tolist() != sorted(spec.indices):
            return f"{v.name}: indices {spec.indices} selected {cols.tolist()}"
        if mode == "random" and cols.size != max(1, min(F, int(round(float(spec.fraction) * F)))):
            return f"{v.name}: a fraction {spec.fraction} of {F} columns selected {cols.size}"
        if mode == "complement":
            other = np.asarray(r.columns[spec.complement_of])
            if sorted([*cols.tolist(), *other.tolist()]) != list(range(F)):
                return f"{v.name}: {cols.tolist()} and {other.tolist()} do not partition {F} columns"
        for name in ("train", "test"):
            b, g = getattr(base, name), getattr(got, name)
            if (b is None) != (g is None):
                return f"{v.name}: {name} split appeared or vanished"
            if b is None:
                continue
            if canon(np.asarray(feats(g.X))) != canon(np.ascontiguousarray(feats(b.X)[:, cols])):
                return f"{v.name}: {name} features are not the selected columns"
            if canon((g.y, g.edges, g.masks)) != canon((b.y, b.edges, b.masks)):
                return f"{v.name}: {name} labels, edges or masks changed"
            if isinstance(b.X, dict) and canon({k: x for k, x in g.X.items() if k != "x"}) != canon({k: x for k, x in b.X.items() if k != "x"}):
                return f"{v.name}: {name} other inputs changed"
        own = {"views", "view_meta", "views_fingerprint"}
        if canon({k: x for k, x in got.meta.items() if k not in own}) != canon({k: x for k, x in base.meta.items() if k not in own}):
            return f"{v.name}: metadata of the dataset changed"
        want = {**(base.meta.get("views") or {})}
        have = dict(got.meta.get("views") or {})
        if (have.pop(v.name, None) or {}).get("columns") != cols.tolist():
            return f"{v.name}: metadata does not record the columns"
        want.pop(v.name, None)
        if canon(want) != canon(have):
            return f"{v.name}: metadata records {sorted(have)} besides {v.name}, expected {sorted(want)}"
    return None


def op_views(rt, cfg, cache, root="cache", hist=()):
    for h in hist:
        op_views(rt, h, cache, root)
    try:
        return _run(cfg, cache, os.path.join(rt.root, root))
    except Exception as e:
        from ..core import tb_tail

        return ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))


def _run(cfg, cache, root):
    import numpy as np

    from modssc.preprocess.services.pipeline import preprocess
    from modssc.views.api import generate_views

    os.environ["MODSSC_PREPROCESS_CACHE_DIR"] = root
    ds = build(cfg["kind"], cfg["ds"])
    res = None
    for st in cfg["stages"]:
        before = canon((ds.train, ds.test, ds.meta))
        if st["t"] == "prep":
            ds2 = preprocess(ds, _pp(st["plan"]), seed=st["seed"], cache=cache, fit_indices=np.array(FIT[st.get("fit", 0)])).dataset
        else:
            plan = _vp(st)
            fit = np.array([0, 2, 4, 6, 8]) if st["fit"] else None
            r = generate_views(ds, plan=plan, seed=st["seed"], cache=cache, fit_indices=fit)
            res = canon({k: (v.train, v.test, {a: b for a, b in v.meta.items() if a != "preprocess_cache_dir"}, r.columns[k]) for k, v in r.views.items()})
            if not cache:
                bad = check(ds, st, plan, r, fit)
                if bad:
                    return ("bad", bad)
            ds2 = r.views[st["views"][st["pick"]]["name"]]
        if canon((ds.train, ds.test, ds.meta)) != before:
            return ("mutated", str(diff(before, canon((ds.train, ds.test, ds.meta)))))
        ds = ds2
    meta = {k: v for k, v in ds.meta.items() if k != "preprocess_cache_dir"}
    return ("ok", canon((ds.train, ds.test, meta)), res)


def op_seeds(rt, cfg):
    """Column selections of the random views of the last views stage, over 12 seeds."""
    from modssc.views.api import generate_views

    ds = build(cfg["kind"], cfg["ds"])
    st = [s for s in cfg["stages"] if s["t"] == "views"][-1]
    st = {**st, "views": [{**v, "pre": None} for v in st["views"]]}
    try:
        plan = _vp(st)
        runs = [generate_views(ds, plan=plan, seed=s, cache=False).columns for s in range(12)]
    except Exception as e:
        return ("err", type(e).__name__)
    F = feats(ds.train.X).shape[1]
    return ("ok", F, {v["name"]: [r[v["name"]].tolist() for r in runs] for v in st["views"] if v["cols"] and v["cols"]["mode"] == "random"})


class V01(PrepScenario):
    prop = "V01"
    rule = ("2-5 neighbouring requests, each a chain of up to four preprocessing and views stages, over one cache: one after another, with a "
            "process killed or failing, two at a time, after each other in one process, or in an interpreter with another string-hash seed; each "
            "must equal its uncached result, which must satisfy the definition of every view; non-trivial: at least two requests succeeded")
    quick_runs = 220
    thorough_runs = 40000
    must_reach = ("distinct", "deep", "view-then-prep", "rearranged", "interpreter", "killed", "overlap", "seeds", "history")
    real = ["modssc.views", *PrepScenario.real]

    def setup(self):
        self.start_peer()

    def ref(self, sim, cfg):
        v = self.val(sim.run_one(sim.spawn("ref", op_views, cfg, False)), "uncached")
        self.sound(cfg, v, "uncached")
        return v

    def sound(self, cfg, v, when):
        if v[0] == "mutated":
            raise Violation("input-modified", f"{when}: {show(cfg)} changed the dataset it was given: {v[1]}")
        if v[0] == "bad":
            raise Violation("bad-view", f"{when}: {show(cfg)}: {v[1]}")

    def same(self, cfg, ref, got, when):
        self.sound(cfg, got, when)
        if ref[0] == "err":
            if got[0] != "err" or got[1:3] != ref[1:3]:
                raise Violation("differs-from-uncached", f"{when}: {show(cfg)}: without cache it fails with {ref[1:3]}, with cache: "
                                f"{got[:3] if got[0] == 'err' else 'succeeds'}")
        elif got[0] == "err":
            raise Violation("cache-error", f"{when}: {show(cfg)} fails with the cache: {got[1:]}")
        elif got != ref:
            raise Violation("differs-from-uncached", f"{when}: {show(cfg)}: result differs from the one without cache: {diff(ref, got)}")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfgs = [gen_cfg(c)]
        for _ in range(1 + c.choose(4, "nreq")):
            cfgs.append(neighbour(c, cfgs[c.choose(len(cfgs), "base")]))
        refs = [self.ref(sim, g) for g in cfgs]
        sim.trace += [f"request {i}: {show(g)}" for i, g in enumerate(cfgs)]
        for g in cfgs:
            ts = [s["t"] for s in g["stages"]]
            if len(ts) > 2:
                probes["deep"] = 1
            if ts != sorted(ts):
                probes["view-then-prep"] = 1
        if refs[0][0] == "ok" and c.flip(1, 2, "rearrange") and cfgs[0]["stages"][-1]["t"] == "views":
            alt = rearranged(c, cfgs[0])
            v = self.val(sim.run_one(sim.spawn("rearranged", op_views, alt, False)), "rearranged")
            self.sound(alt, v, "rearranged")
            if v[0] != "ok" or v[1] != refs[0][1]:
                raise Violation("not-independent", f"a view changes with the views generated beside it: {show(cfgs[0])} / {show(alt)}: "
                                f"{diff(refs[0][1], v[1]) if v[0] == 'ok' else v[:3]}")
            probes["rearranged"] = 1
        if c.flip(1, 4, "seeds"):
            v = self.val(sim.run_one(sim.spawn("seeds", op_seeds, cfgs[0])), "seeds")
            if v[0] == "ok":
                for name, sel in v[2].items():
                    if 1 < v[1] and 0 < len(sel[0]) < v[1]:
                        probes["seeds"] = 1
                        if all(s == sel[0] for s in sel):
                            raise Violation("seed-ignored", f"view {name} selects columns {sel[0]} of {v[1]} for each of 12 seeds: {show(cfgs[0])}")
        order = list(range(len(cfgs)))
        for _ in range(c.choose(3, "repeat")):
            order.append(c.choose(len(cfgs), "again"))
        for j, i in enumerate(order):
            how = c.weighted([5, 2, 2, 1, 1], "how")
            when = f"after requests {order[:j]}, request {i}"
            if how == 1:
                p = sim.run_one(sim.spawn(f"hit{j}", op_views, cfgs[i], True), faults=("crash", "torn", "enospc", "errno", "interrupt", "memory"),
                                max_faults=1, hint=c.pick([30, 10, 80], "hint"))
                if p.state == "crashed":
                    probes["killed"] = 1
            elif how == 2 and len(cfgs) > 1:
                k = c.choose(len(cfgs), "other")
                procs = [sim.spawn(f"P{j}", op_views, cfgs[i], True), sim.spawn(f"Q{j}", op_views, cfgs[k], True)]
                sim.run_many(procs, max_switch=c.pick([6, 2, 12], "switches"), hint=60)
                for p, m in zip(procs, (i, k)):
                    self.same(cfgs[m], refs[m], self.val(p, p.name), f"{when} beside request {k}")
                if sim.switches:
                    probes["overlap"] = 1
            elif how == 3:
                kind, v = self.peer.call(op_views, cfgs[i], c.flip(1, 2, "cached"), root=sim.root, salt=j)
                if kind != "ok":
                    raise AssertionError(f"harness: {v}")
                self.same(cfgs[i], refs[i], v, when + " in another interpreter")
                probes["interpreter"] = 1
                continue
            elif how == 4:
                k = c.choose(len(cfgs), "before")
                p = sim.run_one(sim.spawn(f"req{j}", op_views, cfgs[i], True, "cache", (cfgs[k],)))
                self.same(cfgs[i], refs[i], self.val(p, when), f"{when} after {k} in one process")
                probes["history"] = 1
                continue
            p = sim.run_one(sim.spawn(f"req{j}", op_views, cfgs[i], True))
            self.same(cfgs[i], refs[i], self.val(p, when), when)
        ok = {repr(g) for g, r in zip(cfgs, refs) if r[0] == "ok"}
        if len(ok) > 1:
            probes["distinct"] = 1
        return {"nontrivial": len(ok) > 1, "kind": cfgs[0]["kind"], "probes": probes, "key": hashlib.sha256(repr(cfgs).encode()).hexdigest()[:12]}


SCENARIOS = {s.prop: s() for s in (V01,)}
