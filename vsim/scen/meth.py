"""Methods and classifiers through their own interfaces: whole lives of fitted objects in one process."""

from __future__ import annotations

import copy
import gc
import itertools
import os
import random
import sys
import types

import numpy as np

from ..canon import canon, diff
from ..core import Chooser, HarnessError, Violation, tb_tail
from .bench import BINARY, BenchScenario, KIND, LIGHT, METHODS, SKCLS, TCLS, brief, gen_cfg, key, one_run, outputs, vary, write_cfg

BUNDLE = sorted(m for m, r in METHODS.items() if "model" in r)
PLAIN = sorted(m for m in set(METHODS) | set(LIGHT) if (METHODS.get(m) or {"kind": KIND.get(m)})["kind"] == "inductive" and m not in BUNDLE)
TRANS = sorted(m for m in set(METHODS) | set(LIGHT) if (METHODS.get(m) or {"kind": KIND.get(m)})["kind"] == "transductive")
CLS = [(a, b) for a, b in (("knn", "numpy"), ("knn", "sklearn"), ("knn", "torch"), ("logreg", "sklearn"), ("logreg", "torch"), ("mlp", "torch"),
                           ("svm_rbf", "sklearn"), ("linear_svm", "sklearn"), ("ridge", "sklearn"), ("random_forest", "sklearn"),
                           ("extra_trees", "sklearn"), ("gradient_boosting", "sklearn"), ("gaussian_nb", "sklearn"),
                           ("multinomial_nb", "sklearn"), ("bernoulli_nb", "sklearn"), ("image_cnn", "torch"), ("audio_cnn", "torch"),
                           ("text_cnn", "torch"), ("lstm_scratch", "torch"), ("audio_cnn_scratch", "torch"), ("graphsage_inductive", "torch"))]
CPARAMS = {
    "knn": [{}, {"k": 3}, {"k": 3, "weights": "distance"}, {"k": 4, "metric": "cosine"}], "logreg": [{}], "svm_rbf": [{}, {"C": 3.0}],
    "linear_svm": [{}, {"C": 0.3}], "ridge": [{}, {"alpha": 3.0}], "random_forest": [{"n_estimators": 3}, {"n_estimators": 5, "max_depth": 2}],
    "extra_trees": [{"n_estimators": 3}], "gradient_boosting": [{"n_estimators": 3}], "gaussian_nb": [{}], "multinomial_nb": [{}],
    "bernoulli_nb": [{}], "mlp": [{"hidden_sizes": [8], "max_epochs": 2, "batch_size": 5}, {"hidden_sizes": [4, 4], "max_epochs": 3, "dropout": 0.5, "activation": "gelu"},
                                  {"hidden_sizes": [], "max_epochs": 2}],
    "image_cnn": [{"conv_channels": [4], "fc_dim": 4, "max_epochs": 2, "batch_size": 5}, {"conv_channels": [4, 3], "fc_dim": 0, "max_epochs": 1}],
    "audio_cnn": [{"conv_channels": [4], "kernel_size": 3, "fc_dim": 4, "max_epochs": 2, "batch_size": 5}],
    "text_cnn": [{"kernel_sizes": [2, 3], "num_filters": 3, "max_epochs": 2, "batch_size": 5}],
    "lstm_scratch": [{"vocab_size": 30, "embedding_dim": 4, "hidden_dim": 4, "num_layers": 1, "max_epochs": 2, "batch_size": 5},
                     {"vocab_size": 30, "embedding_dim": 4, "hidden_dim": 3, "num_layers": 2, "max_epochs": 1, "dropout": 0.5}],
    "audio_cnn_scratch": [{"base_channels": 2, "num_blocks": 2, "max_epochs": 1, "batch_size": 5}],
    "graphsage_inductive": [{"hidden_channels": 4, "num_layers": 2, "max_epochs": 2, "batch_size": 64}],
}
TORCH_PARAMS = {"logreg": [{"max_epochs": 2, "batch_size": 5}, {"max_epochs": 3, "lr": 0.1}]}
UNITS = [("I", m) for m in PLAIN for _ in range(2)] + [("D", m) for m in BUNDLE] + [("T", m) for m in TRANS] + [("C", *x) for x in CLS]


# ---------------------------------------------------------------------------------------------------- inputs
def blobs(r, n, k, d, spread=0.7):
    y = np.concatenate([np.arange(k), r.integers(0, k, size=max(0, n - k))])[:n]
    ctr = np.random.default_rng(1234 + k).normal(size=(k, d)) * 2.0
    return ctr[y] + r.normal(size=(n, d)) * spread, y.astype(np.int64)


def named(y, how):
    """Other names for the classes, in the same order."""
    if how == "gap":
        return y * 7 + 3
    if how == "neg":
        return y - 5
    if how and how.startswith("near"):  # integers around 0..k-1
        j, k = map(int, how[4:].split("of"))
        sets = [v for v in itertools.combinations(range(-2, k + 2), k) if v != tuple(range(k))]
        part = [v for v in sets if v[-1] == k - 1 or v[0] == 0]  # so that one end is as usual
        sets = part if j < 6 else sets
        return np.asarray(sets[j % 6 * len(sets) // 6])[y]
    if how == "big":
        return y * 1000003 + 5000000000
    if how in ("int32", "uint8", "int8"):
        return y.astype(how)
    if how == "i16gap":
        return (y * 301 - 7).astype(np.int16)
    if how == "str":
        return np.array([f"c{v:02d}" for v in y])
    return y


def shaped(cid, r, y, d):
    """Inputs of the kind a classifier takes, as float32/int64 arrays."""
    n = len(y)
    if cid == "image_cnn":
        return (r.normal(size=(n, 2, 5, 5)) + y[:, None, None, None]).astype(np.float32)
    if cid == "audio_cnn":
        return (r.normal(size=(n, 1, 12)) + y[:, None, None]).astype(np.float32)
    if cid == "text_cnn":
        return (r.normal(size=(n, 6, 4)) + y[:, None, None]).astype(np.float32)
    if cid == "lstm_scratch":
        return ((r.integers(1, 9, size=(n, 6)) + 6 * y[:, None]) % 30).astype(np.int64)
    if cid == "audio_cnn_scratch":
        return (r.normal(size=(n, 8, 8)) + y[:, None, None]).astype(np.float32)
    return None


def build(ds):
    """The dataset a recipe describes, always in new memory."""
    k, d = ds["k"], ds["d"]
    r = np.random.default_rng(ds["seed"])
    kind = ds["kind"]
    dt = np.dtype(ds.get("dtype", "float32"))
    if kind == "C":
        cid, back = ds["cid"], ds["back"]
        X, y = blobs(r, ds["n"], k, d)
        if cid in ("multinomial_nb", "bernoulli_nb"):
            X = np.abs(X)
        Xs = shaped(cid, r, y, d)
        X = X.astype(dt) if Xs is None else Xs
        y = named(y, ds.get("names"))
        if back == "torch":
            import torch

            X, y = torch.as_tensor(X), torch.as_tensor(y)
            if cid == "graphsage_inductive":
                n = len(y)
                e = np.stack([np.concatenate([np.arange(n), r.integers(0, n, n)]), np.concatenate([(np.arange(n) + 1) % n, r.integers(0, n, n)])])
                X = {"x": X, "edge_index": torch.as_tensor(e)}
        return types.SimpleNamespace(X=X, y=y)
    if kind == "T":
        from modssc.graph.artifacts import GraphArtifact, NodeDataset

        n = ds["n"]
        X, y = blobs(r, n, k, d, 1.0)
        p = r.permutation(n)
        X, y = X[p].astype(dt), y[p]
        gr = np.random.default_rng(ds.get("gseed", ds["seed"]) + 5)
        src = [np.arange(n), gr.integers(0, n, 2 * n)]
        dst = [(np.arange(n) + 1) % n, gr.integers(0, n, 2 * n)]
        e = np.stack([np.concatenate(src), np.concatenate(dst)])
        e = e[:, e[0] != e[1]]
        if ds.get("sym", True):
            e = np.concatenate([e, e[::-1]], axis=1)
        e = np.unique(e, axis=1)
        w = None
        if ds.get("w"):
            lo, hi = np.minimum(*e), np.maximum(*e)
            w = (0.2 + ((lo * 31 + hi * 17) % 10) / 10).astype(np.float32)
        if ds.get("eorder") is not None:
            o = np.random.default_rng(ds["eorder"]).permutation(e.shape[1])
            e, w = np.ascontiguousarray(e[:, o]), None if w is None else w[o]
        tr = np.zeros(n, bool)
        for cl in range(k):
            tr[np.flatnonzero(y == cl)[: ds["per"]]] = True
        rest = r.permutation(np.flatnonzero(~tr))
        nv = len(rest) // 3 if ds.get("val", True) else 0
        va, te = np.zeros(n, bool), np.zeros(n, bool)
        va[rest[:nv]] = True
        te[rest[nv:]] = True
        masks = {"train_mask": tr, "val_mask": va, "test_mask": te}
        if not nv and ds.get("noval"):
            masks.pop("val_mask")
        if ds.get("unl"):
            masks["unlabeled_mask"] = ~tr
        hid = ds.get("hidden")
        if hid is not None:
            h = np.flatnonzero(~tr & ~va)
            hr = np.random.default_rng(hid[1])
            y = y.copy()
            if hid[0] == "permute":
                y[h] = y[hr.permutation(h)]
            elif hid[0] == "resample":
                y[h] = hr.integers(0, k, size=len(h))
            elif hid[0] == "unknown":
                y[h] = -1
            elif hid[0] == "one":
                y[h] = int(hr.integers(0, k))
        g = GraphArtifact(n_nodes=n, edge_index=e, edge_weight=w, directed=not ds.get("sym", True))
        return NodeDataset(X=X, y=y, graph=g, masks=masks, meta={})
    from modssc.inductive.types import InductiveDataset

    Xl, yl = blobs(r, ds["nl"], k, d)
    Xu, yu = blobs(r, ds["nu"], k, d)
    p = r.permutation(len(Xu))
    Xu = Xu[p]
    yl = named(yl, ds.get("names"))
    cast = lambda a: a.astype(dt)
    if ds.get("torch"):
        import torch

        cast = lambda a: torch.as_tensor(a.astype(dt))
        yl = torch.as_tensor(yl)
    w, s, s1 = (cast(Xu + r.normal(size=Xu.shape) * z) for z in (0.05, 0.4, 0.4))
    kw = {}
    if ds.get("views"):
        cols = [list(range(d // 2)), list(range(d // 2, d))]
        kw["views"] = {nm: {"X_l": cast(Xl[:, c]), "X_u": cast(Xu[:, c])} for nm, c in zip(("a", "b"), cols)}
    elif ds.get("aug"):
        kw["views"] = {"X_u_s_1": s1}
    if ds.get("aug"):
        kw.update(X_u_w=w, X_u_s=s)
    meta = {"idx_u": np.arange(len(Xu)), "ulb_size": len(Xu)}
    if ds.get("torch"):
        import torch

        meta["idx_u"] = torch.as_tensor(meta["idx_u"])
    if ds.get("groups"):
        meta["group_u"] = np.arange(len(Xu)) // 4
        meta["group_l"] = np.arange(len(Xl)) // 4
        if ds.get("torch"):
            meta["group_u"], meta["group_l"] = torch.as_tensor(meta["group_u"]), torch.as_tensor(meta["group_l"])
    return InductiveDataset(X_l=cast(Xl), y_l=yl, X_u=cast(Xu), meta=meta, **kw)


def pour(old, new):
    """Write the contents of one dataset into the arrays of another, as a user who edits data in place does."""
    for k, v in (new.items() if isinstance(new, dict) else vars(new).items()):
        o = old[k] if isinstance(old, dict) else getattr(old, k)
        if isinstance(v, np.ndarray):
            if o.shape != v.shape or o.dtype != v.dtype:
                raise HarnessError(f"edit of {k}")
            o[...] = v
        elif hasattr(v, "detach"):
            o.copy_(v)
        elif isinstance(v, dict) or hasattr(v, "edge_index"):
            pour(o, v)


def query(ds):
    """What predictions are asked for: new rows of the same kind (or the graph itself)."""
    if ds["kind"] == "T":
        return build(ds)
    q = dict(ds, nl=ds.get("nq", 7), n=ds.get("nq", 7))
    b = build(q)
    if ds["kind"] == "C":
        return b.X
    if ds.get("views"):
        from modssc.inductive.types import InductiveDataset

        return InductiveDataset(X_l=b.X_l, y_l=b.y_l, views={k: {"X": v["X_l"]} for k, v in b.views.items()})
    return b.X_l


def rows(q, idx):
    """Some rows of a query (None: it is not made of independent rows)."""
    if isinstance(q, dict) or hasattr(q, "graph"):
        return None
    if hasattr(q, "views"):
        from modssc.inductive.types import InductiveDataset

        return InductiveDataset(X_l=q.X_l[idx], y_l=q.y_l[idx], views={k: {"X": v["X"][idx]} for k, v in q.views.items()})
    return q[idx]


# -------------------------------------------------------------------------------------------------- operations
def make(u, ds, seed):
    """A new, unfitted object."""
    kind = u["kind"]
    if kind == "C":
        from modssc.supervised import create_classifier

        return create_classifier(u["id"], backend=u["back"], params={**copy.deepcopy(u["params"]), "seed": seed})
    if kind == "T":
        from modssc.transductive.registry import get_method_class
    else:
        from modssc.inductive.registry import get_method_class
    from bench.orchestrators import method_inductive as mi

    cls = get_method_class(u["id"])
    spec = mi._build_spec(cls, copy.deepcopy(u["params"]), strict=False)
    if u.get("model"):
        m = types.SimpleNamespace(factory=None, params={}, **copy.deepcopy(u["model"]))
        data = build(ds)
        if spec is None:
            spec = cls().spec
        spec = mi._inject_model_bundle(spec, m, X_l=data.X_l, y_l=data.y_l, method_id=u["id"], seed=seed, strict=False)
    return cls(spec) if spec is not None else cls()


def fit(u, obj, data, seed):
    if u["kind"] == "C":
        obj.fit(data.X, data.y)
    elif u["kind"] == "T":
        obj.fit(data, device=u.get("device"), seed=seed)
    else:
        from modssc.inductive.types import DeviceSpec

        obj.fit(data, device=DeviceSpec(), seed=seed)


def arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.array(x)


def predict(u, obj, q):
    if u["kind"] == "C":
        out = {"predict": arr(obj.predict(q)), "scores": arr(obj.predict_scores(q)), "classes": arr(obj.classes_)}
        if obj.supports_proba:
            out["proba"] = arr(obj.predict_proba(q))
        return out
    out = {"proba": arr(obj.predict_proba(q))}
    if u["kind"] != "T":
        out["predict"] = arr(obj.predict(q))
    return out


def ambient():
    """Process-wide settings other code depends on."""
    out = {"np.err": tuple(sorted(np.geterr().items())), "print": np.get_printoptions()["precision"], "recursion": sys.getrecursionlimit(),
           "environ": {k: v for k, v in os.environ.items() if not k.startswith(("KMP", "OMP"))}, "cwd": os.getcwd()}
    torch = sys.modules.get("torch")
    if torch is not None:
        out.update(grad=torch.is_grad_enabled(), dtype=str(torch.get_default_dtype()),
                   threads=torch.get_num_threads())
    return out


class Cut:
    """Raises an exception at the n-th call of a function of the code under test."""

    def __init__(self, n, exc):
        self.n, self.exc, self.hit = n, exc, False

    def __call__(self, frame, event, arg):
        if event == "call" and ("/modssc/" in frame.f_code.co_filename or "<string>" == frame.f_code.co_filename):
            self.n -= 1
            if self.n == 0:
                self.hit = True
                sys.setprofile(None)
                raise self.exc("simulated")

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def unmodified(what, before, obj, out):
    d = diff(before, canon(obj))
    if d:
        out.append(f"{what}: {d[0]}")


def op_life(rt, script):
    """Run a script of operations in this process; one result per asking step."""
    objs, datas = {}, {}
    res = []
    changed = []
    amb = ambient()
    for st in script:
        a = st[0]
        try:
            if a == "data":
                datas[st[1]] = build(st[2])
                r = None
            elif a == "edit":
                pour(datas[st[1]], build(st[2]))
                r = None
            elif a == "drop":
                datas.pop(st[1], None)
                gc.collect()
                r = None
            elif a == "forget":
                objs.pop(st[1], None)
                gc.collect()
                r = None
            elif a == "noise":
                random.seed(st[1])
                np.random.seed(st[1])
                torch = sys.modules.get("torch")
                if torch is not None:
                    torch.manual_seed(st[1])
                    torch.rand(3)
                random.random()
                np.random.rand(2)
                r = None
            elif a == "new":
                objs[st[1]] = (st[2], make(st[2], st[3], st[4]))
                r = None
            elif a == "fit":
                u, o = objs[st[1]]
                b = canon(datas[st[2]])
                try:
                    fit(u, o, datas[st[2]], st[3])
                finally:
                    unmodified(f"fit of {u['id']}", b, datas[st[2]], changed)
                r = ("ok", None)
            elif a == "cut":
                u, o = objs[st[1]]
                with Cut(st[4], {"interrupt": KeyboardInterrupt, "memory": MemoryError}[st[5]]) as cut:
                    try:
                        fit(u, o, datas[st[2]], st[3])
                    except (KeyboardInterrupt, MemoryError):
                        pass
                r = ("cut", cut.hit)
            elif a == "ask":
                u, o = objs[st[1]]
                q = datas[st[2]] if st[2] in datas else query(st[3])
                if st[2] not in datas and st[2] is not None:
                    datas[st[2]] = q
                if st[4] is not None:
                    q = rows(q, st[4])
                b = canon(q)
                try:
                    out = predict(u, o, q)
                finally:
                    unmodified(f"prediction of {u['id']}", b, q, changed)
                r = ("ok", out)
            else:
                raise HarnessError(a)
        except Exception as e:
            r = ("raise", type(e).__name__, str(e)[:200], tb_tail(e))
            if a in ("data", "drop", "noise", "edit"):
                raise
        if a in ("new", "fit", "cut", "ask"):
            res.append((a, st[1], r))
    now = ambient()
    left = [f"{k}: {amb[k]!r} -> {now[k]!r}"[:200] for k in amb if amb[k] != now[k]]
    return res, changed, left


def same(a, b, tol=1e-6):
    """Readable difference of two outcomes of a step, or None."""
    if a is None or b is None or a[0] != b[0]:
        return None if a == b else f"{a and a[:3]} != {b and b[:3]}"
    if a[0] == "raise":
        return None if a[1] == b[1] else f"{a[1:3]} != {b[1:3]}"
    if a[0] != "ok" or a[1] is None:
        return None
    for k in a[1]:
        x, y = a[1][k], b[1].get(k)
        if y is None or x.shape != y.shape or x.dtype != y.dtype:
            return f"{k}: {x.dtype}{x.shape} != {None if y is None else (y.dtype, y.shape)}"
        if x.dtype.kind in "fc":
            if not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                i = int(np.nanargmax(np.abs(np.nan_to_num(x) - np.nan_to_num(y)).ravel()))
                return f"{k}: {x.ravel()[i]!r} != {y.ravel()[i]!r} at {i}, {int((x != y).sum())} of {x.size} differ"
        elif not np.array_equal(x, y):
            return f"{k}: {int((x != y).sum())} of {x.size} differ"
    return None


# --------------------------------------------------------------------------------------------------- generation
def gen_unit(c, unit):
    kind, mid = unit[:2]
    if kind == "C":
        tab = TORCH_PARAMS if unit[2] == "torch" and mid in TORCH_PARAMS else CPARAMS
        return {"kind": kind, "id": mid, "back": unit[2], "params": copy.deepcopy(c.pick(tab[mid], "params")), "torch": unit[2] == "torch"}
    if kind == "D":
        row = copy.deepcopy(METHODS[mid])
        u = {"kind": kind, "id": mid, "params": row["params"], "model": {k: row["model"].get(k) for k in ("classifier_id", "classifier_backend", "classifier_params", "ema")},
             "torch": True}
        vary(c, mid, u["params"], (1, 4))
        return u
    light = mid not in METHODS or mid in LIGHT and c.flip(1, 2, "light")
    u = {"kind": kind, "id": mid, "params": copy.deepcopy(c.pick(LIGHT[mid], "params") if light else METHODS[mid]["params"])}
    u["torch"] = kind == "I" and not light
    vary(c, mid, u["params"], (1, 4))
    if kind == "T":
        u["device"] = c.pick(["cpu", None], "device")
    elif "classifier_id" in u["params"] and c.flip(1, 2, "cls"):
        cid, back, par = c.pick(TCLS if u["torch"] else SKCLS, "classifier")
        u["params"].update(classifier_id=cid, classifier_backend=back, classifier_params=copy.deepcopy(par))
    if mid in ("self_training", "pseudo_label") and c.flip(1, 2, "loose"):
        u["params"]["confidence_threshold"] = 0.4
    return u


def gen_data(c, u, near=None):
    """A dataset recipe for a unit; near: one of the same sizes, with other contents."""
    if near is not None and c.flip(2, 3, "near"):
        ds = dict(near, seed=c.choose(900, "dseed"))
        if u["kind"] == "T" and c.flip(1, 2, "same-sizes"):
            return ds
        return ds
    k = 2 if u["id"] in BINARY else c.pick([3, 2, 4], "k")
    if near is not None:
        k = near["k"]
    d = c.pick([4, 6, 3], "d") if near is None else near["d"]
    ds = {"kind": u["kind"], "k": k, "d": d, "seed": c.choose(900, "dseed")}
    if u["kind"] == "C":
        ds.update(cid=u["id"], back=u["back"], n=c.pick([12, 9, 20], "n"), nq=c.pick([7, 1, 15], "nq"))
        if not u["torch"] and c.flip(1, 3, "f64"):
            ds["dtype"] = "float64"
        ds["names"] = None if u["id"] == "graphsage_inductive" else c.pick([None, "gap", "neg"] if u["torch"] else [None, "gap", "neg", "str"], "names")
    elif u["kind"] == "T":
        ds.update(n=c.pick([16, 24, 31], "n"), per=c.pick([2, 1, 3], "per"), val=c.flip(3, 4, "val"), noval=c.flip(1, 2, "noval"), w=c.flip(1, 2, "w"),
                  sym=c.flip(3, 4, "sym"), unl=c.flip(1, 2, "unl"))
    else:
        ds.update(nl=c.pick([9, 12, 6], "nl"), nu=c.pick([14, 9, 21], "nu"), nq=c.pick([7, 1, 12], "nq"), torch=u["torch"], aug=u["kind"] == "D",
                  views=u["id"] == "co_training")
        if u["id"] == "self_training":
            ds["groups"] = c.flip(1, 2, "groups")
        if not u["torch"] and c.flip(1, 3, "f64"):
            ds["dtype"] = "float64"
    return ds


class MethScenario(BenchScenario):
    real = ["inductive methods", "transductive methods", "supervised classifiers", "bench construction of specs and model bundles",
            "numpy, scikit-learn and torch on one thread"]
    stub = ["clock", "entropy", "datasets made by the harness"]
    assumptions = ["a fit is interrupted at a call boundary of the code under test"]

    def warm(self, tmp):
        c = Chooser(0)
        for unit in dict.fromkeys(UNITS):
            try:
                u = gen_unit(c, unit)
                ds = gen_data(c, u)
                o = make(u, ds, 0)
                fit(u, o, build(ds), 0)
                predict(u, o, query(ds))
            except Exception:
                if os.environ.get("VSIM_DEBUG"):
                    import traceback

                    print(unit, traceback.format_exc())

    def val(self, p, what):
        if p.state == "crashed" or p.result is None:
            raise HarnessError(f"{what}: process ended")
        if p.result[0] != "ok":
            raise Violation("process-died", f"{what}: {p.result}")
        return p.result[1]


class M01(MethScenario):
    prop = "M01"
    quick_runs = 400
    thorough_runs = 20000
    rule = ("a method or classifier is fitted and asked in a process where other objects were fitted before, datasets were dropped and rebuilt in "
            "the same memory, the object itself was fitted on other data, a fit was interrupted, and ambient random state was changed; every "
            "answer is compared with a fresh process that only performs that fit and that question; non-trivial: something happened before")
    must_reach = ("refit", "rebuilt", "edit", "cut", "noise", "other", "rows", "I", "D", "T", "C", "ok", "interpreter")

    def setup(self):
        self.start_peer()

    def run(self, sim):
        c = sim.c
        probes = {}
        unit = UNITS[c.turn(len(UNITS), "unit")]
        u = gen_unit(c, unit)
        probes[u["kind"]] = 1
        d0 = gen_data(c, u)
        pool = [d0]
        for _ in range(1 + c.choose(2, "ndata")):
            pool.append(gen_data(c, u, d0))
        seeds = [c.pick([0, 1, 7], "seed"), c.pick([0, 3], "seed2")]
        units = [u]
        if c.flip(1, 2, "other"):
            o = gen_unit(c, unit) if c.flip(1, 2, "same-kind") else gen_unit(c, UNITS[c.choose(len(UNITS), "other-unit")])
            units.append(o)
            probes["other"] = 1
        script, asked = [], []  # asked: (index of result, unit, fit data, fit seed, query data, rows)
        state = {}
        nres = 0
        live = set()
        byid, last = {}, {}

        def step(*s):
            nonlocal nres
            script.append(s)
            if s[0] in ("new", "fit", "cut", "ask"):
                nres += 1
                return nres - 1

        nd = 0
        for i in range(2 + c.choose(5, "nsteps")):
            w = c.weighted([6, 2, 2, 2], "what") if i else 0
            if w == 3:
                step("noise", c.choose(1000, "salt"))
                probes["noise"] = 1
                continue
            which = u if c.flip(3, 4, "main") else units[-1]
            dsp = pool if which is u else [gen_data(c, which)]
            ds = c.pick(dsp, "which-data")
            # the dataset: kept from before, or dropped and rebuilt
            name = None
            have = [n for n in live if byid[n] == repr(ds)]
            alike = [n for n in sorted(live) if n in last] if which is u else []
            if have and c.flip(1, 2, "kept"):
                name = sorted(have)[0]
            elif alike and c.flip(1, 2, "edit"):
                # the data the main object was fitted on is edited in place
                name = c.pick(alike, "edited")
                ds = dict(last[name], seed=c.choose(900, "dseed"))
                ds["gseed"] = last[name].get("gseed", last[name]["seed"])
                step("edit", name, ds)
                byid[name] = repr(ds)
                last[name] = ds
                for x in state.values():
                    if x.get("on") == name:
                        x["fit"] = None
                probes["edit"] = 1
            else:
                if live and c.flip(3, 4, "drop"):
                    n = c.pick(sorted(live), "drop")
                    step("drop", n)
                    live.discard(n)
                    probes["rebuilt"] = 1
                nd += 1
                name = f"d{nd}"
                step("data", name, ds)
                live.add(name)
                byid[name] = repr(ds)
                last.pop(name, None)
            seed = c.pick(seeds, "fit-seed")
            mine = sorted(n for n, s in state.items() if s["u"] is which)
            re = [n for n in mine if which["kind"] != "D" and (which["kind"] != "C" or state[n]["seed"] == seed)]
            if re and c.flip(2, 3, "refit"):
                n = re[0]
                probes["refit"] = 1
            else:
                n = f"o{len(state)}"
                step("new", n, which, ds, seed)
                state[n] = {"u": which, "seed": seed, "fit": None}
            st = state[n]
            if w == 2 and which["kind"] != "D" or w == 2 and c.flip(1, 2, "cut-bundle"):
                step("cut", n, name, seed, c.pick([3, 1, 10, 30, 80, 200], "cut-at"), c.pick(["interrupt", "memory"], "cut-how"))
                probes["cut"] = 1
                st["fit"] = None
                if which["kind"] == "D":
                    continue
            step("fit", n, name, seed)
            st["fit"] = (ds, seed)
            st["on"] = name
            if which is u:
                last[name] = ds
            k = 1 + c.choose(3, "nasks")
            for _ in range(k):
                m = c.pick(sorted(x for x in state if state[x]["fit"]), "ask-who") if c.flip(1, 3, "ask-other") else n
                s = state[m]
                qd = s["fit"][0]
                if c.flip(1, 3, "other-query") and s["u"] is u:
                    qd = c.pick([p for p in pool if (p["k"], p["d"]) == (qd["k"], qd["d"])], "qdata")
                idx = None
                if qd["kind"] != "T" and s["u"]["id"] != "graphsage_inductive" and c.flip(1, 3, "rows"):
                    nq = qd.get("nq", 7)
                    idx = sorted({c.choose(nq, "row") for _ in range(1 + c.choose(3, "nrows"))})
                    probes["rows"] = 1
                key = name if qd["kind"] == "T" and byid[name] == repr(qd) and c.flip(1, 2, "train-graph") else None
                r = step("ask", m, key, qd, idx)
                asked.append((r, s["u"], s["fit"][0], s["fit"][1], qd, idx, m))
        res, changed, left = self.val(sim.run_one(sim.spawn("life", op_life, script)), "life")
        brief = f"{u['kind']} {u['id']} {u.get('back', '')} {u['params']}"
        sim.trace.append(f"{brief}: {[s[0] for s in script]}")
        sim.note(repr(script))
        for x in res:
            if x[0] == "cut" and x[2] == ("cut", True):
                sim.hit("interrupted-fit", x[1])
        if changed:
            raise Violation("input-modified", f"{brief}: {changed[0]}")
        if left:
            raise Violation("process-settings", f"{brief}: {left[0]}")
        refs = {}
        bad = None
        for r, uu, fd, seed, qd, idx, m in asked:
            key = repr((uu, fd, seed, qd))
            if key not in refs:
                s = [("new", "x", uu, fd, seed), ("data", "d", fd), ("fit", "x", "d", seed), ("ask", "x", None, qd, None)]
                if c.flip(1, 4, "peer"):
                    kind, v = self.peer.call(op_life, s, root=sim.root, salt=c.choose(9, "psalt"))
                    if kind != "ok":
                        raise HarnessError(f"peer: {v}")
                    probes["interpreter"] = 1
                else:
                    v = self.val(sim.run_one(sim.spawn(f"ref{len(refs)}", op_life, s)), "reference")
                refs[key] = v[0]
            ref = refs[key]
            want = ref[2][2]
            if ref[1][2] and ref[1][2][0] == "raise":
                want = ref[1][2]
            elif ref[0][2] and ref[0][2][0] == "raise":
                want = ref[0][2]
            got = res[r][2]
            if want[0] == "ok":
                probes["ok"] = 1
            else:
                probes["failed"] = 1
            if want[0] == "raise":
                # the fit itself fails: then the fit in the history must have failed too
                if ref[1][2][0] == "raise" or (ref[0][2] and ref[0][2][0] == "raise"):
                    continue
            tol = 1e-6
            if idx is not None and want[0] == "ok":
                want = ("ok", {k: (v if k == "classes" else v[idx]) for k, v in want[1].items()})
                tol = 2e-3 if "knn" in repr(uu) else 1e-4
                if got[0] == "ok":  # near ties may fall either way for other batch sizes
                    want, got = untie(want, got)
            d = same(want, got, tol)
            if d:
                raise Violation("depends-on-history", f"{brief}, fitted as {m}, asked {'some rows' if idx is not None else 'all rows'} after {[s[0] for s in script]}: "
                                                      f"alone vs here: {d[-150:]}; "
                                                      f"earlier steps here: {[(x[0], x[1], x[2] and x[2][:3]) for x in res[:r] if x[0] != 'ask']}")
            if want[0] == "ok":
                bad = bad or self.shape_of(uu, fd, want[1])
        if bad:
            raise Violation("ill-formed", f"{brief}: {bad}")
        return {"nontrivial": len(script) > 4, "kind": f"{u['kind']}:{u['id']}", "probes": probes, "key": repr((u, script))[:2000]}

    def shape_of(self, u, fd, out):
        p = out.get("proba")
        if u["kind"] == "C":
            k = len(out["classes"])
            if k != fd["k"]:
                return f"{k} classes for {fd['k']}"
            if not np.isin(out["predict"], out["classes"]).all():
                return "predicted a label that is no class"
            if out["scores"].shape[1] != k:
                return f"scores {out['scores'].shape} for {k} classes"
        if p is not None:
            if p.ndim != 2 or p.shape[1] != fd["k"]:
                return f"probabilities {p.shape} for {fd['k']} classes"
        return None


def untie(a, b):
    """Drop predicted labels of rows whose two best scores nearly tie."""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    s = a[1].get("scores")
    if s is not None and s.ndim == 2 and s.shape[1] > 1:
        t = np.sort(s, axis=1)
        keep = (t[:, -1] - t[:, -2]) > 1e-3
        for o in (a, b):
            if len(o[1]["predict"]) == len(keep):
                o[1]["predict"] = o[1]["predict"][keep]
    return a, b


NAMES = {"C": {"torch": ["gap", "neg", "big", "int32", "uint8", "i16gap", "near", "near", "near"], "": ["gap", "neg", "str", "big", "int32", "uint8", "int8", "i16gap"] + ["near"] * 6},
         "I": {"": ["gap", "neg", "big", "int32", "uint8", "i16gap", "near", "near", "near", "near", "near"]}}


class M03(MethScenario):
    prop = "M03"
    quick_runs = 4500
    thorough_runs = 20000
    rule = ("a method or classifier is fitted twice on the same rows, once with the classes named 0..k-1 and once with other names in the same "
            "order (gaps, negative, large, small integer types, strings), in processes with other ambient state or another interpreter; the "
            "scores must be equal, the predictions the renamed ones, every class of the labeled rows has its column, and the label predicted "
            "is the one whose column is highest; non-trivial: both fits succeeded")
    must_reach = ("I", "D", "C", "renamed", "missing", "interpreter", "shuffled")

    def setup(self):
        self.start_peer()

    def run(self, sim):
        c = sim.c
        probes = {}
        units = [x for x in UNITS if x[0] != "T"]
        unit = units[c.turn(len(units), "unit")]
        u = gen_unit(c, unit)
        probes[u["kind"]] = 1
        ds = gen_data(c, u)
        ds["names"] = None
        seed = c.pick([0, 1, 7], "seed")
        free = u["kind"] == "I" or u["kind"] == "C" and u["id"] != "graphsage_inductive"
        if u["kind"] == "I" and c.flip(1, 2, "light-names") and u["id"] not in BINARY:
            ds["k"] = c.pick([3, 4, 5], "more")
            ds["nl"] = c.pick([12, 9, 20], "nl2")
        brief = f"{u['kind']} {u['id']} {u.get('back', '')} {u['params']} on {ds}"
        sim.trace.append(brief)
        sim.note(brief)

        def life(d, name):
            s = [("new", "x", u, d, seed), ("data", "d", d), ("fit", "x", "d", seed), ("ask", "x", None, d, None)]
            if c.flip(1, 3, "noise"):
                s.insert(0, ("noise", c.choose(99, "salt")))
            if c.flip(1, 4, "peer"):
                kind, v = self.peer.call(op_life, s, root=sim.root, salt=c.choose(9, "psalt"))
                if kind != "ok":
                    raise HarnessError(f"peer: {v}")
                probes["interpreter"] = 1
            else:
                v = self.val(sim.run_one(sim.spawn(name, op_life, s)), name)
            steps, changed, left = v
            if changed:
                raise Violation("input-modified", f"{brief}: {changed[0]}")
            for x in steps:
                if x[2] and x[2][0] == "raise":
                    return x[2]
            return steps[-1][2]

        a = life(ds, "plain")
        if a[0] != "ok":
            return {"nontrivial": False, "kind": "failed", "probes": {"failed": 1}, "key": brief[:2000]}
        self.coherent_out(u, ds, a[1], brief)
        done = False
        if free:
            opts = NAMES[u["kind"]]
            how = c.pick(opts.get("torch" if u["torch"] else "", opts[""]), "names")
            if how == "near":
                how += f"{c.choose(12, 'near')}of{ds['k']}"
            d2 = dict(ds, names=how)
            b = life(d2, "renamed")
            if b[0] != "ok":
                raise Violation("class-names", f"{brief}: with the classes named {how} it fails: {b[1:3]}")
            self.coherent_out(u, d2, b[1], f"{brief} with the classes named {how}")
            x, y = ("ok", {k: v for k, v in a[1].items() if k not in ("predict", "classes")}), ("ok", {k: v for k, v in b[1].items() if k not in ("predict", "classes")})
            d = same(x, y)
            if d:
                raise Violation("class-names", f"{brief}: other class names ({how}) change the {d}")
            old, new = np.unique(labels_of(ds)), np.unique(labels_of(d2))
            if "predict" in a[1]:
                t = {o: n for o, n in zip(old.tolist(), new.tolist())}
                want = [t.get(v) for v in a[1]["predict"].tolist()]
                if want != b[1]["predict"].tolist():
                    raise Violation("class-names", f"{brief}: named {how} it predicts {b[1]['predict'].tolist()} instead of {want}")
            probes["renamed"] = 1
            if how in ("gap", "big", "i16gap"):
                probes["missing"] = 1
            done = True
        if c.flip(1, 2, "shuffle") and ds.get("nq", 7) > 1 and "graphsage" not in u["id"]:
            # the order in which rows are asked for decides nothing about a row
            nq = ds.get("nq", 7)
            perm = list(range(nq))
            for i in range(nq - 1, 0, -1):
                j = c.choose(i + 1, "perm")
                perm[i], perm[j] = perm[j], perm[i]
            s = [("new", "x", u, ds, seed), ("data", "d", ds), ("fit", "x", "d", seed), ("ask", "x", None, ds, perm)]
            v = self.val(sim.run_one(sim.spawn("shuffled", op_life, s)), "shuffled")[0]
            want = ("ok", {k: (x if k == "classes" else x[perm]) for k, x in a[1].items()})
            got = v[-1][2]
            if got[0] == "ok":
                want, got = untie(want, got)
            d = same(want, got, 2e-3 if "knn" in repr(u) else 1e-4)
            if d:
                raise Violation("row-order", f"{brief}: asked for its rows in the order {perm}, the {d}")
            probes["shuffled"] = 1
            done = True
        return {"nontrivial": done, "kind": f"{u['kind']}:{u['id']}", "probes": probes, "key": brief[:2000]}

    def coherent_out(self, u, ds, out, what):
        labels = np.unique(labels_of(ds))
        k = len(labels) if u["kind"] != "D" and u["id"] != "graphsage_inductive" else int(labels.max()) + 1
        p = out.get("proba")
        cls = out.get("classes", labels)
        if out.get("classes") is not None and cls.tolist() != labels.tolist() and u["id"] != "graphsage_inductive":
            raise Violation("classes", f"{what}: its classes are {cls.tolist()} and not those of the labeled rows, {labels.tolist()}")
        for n in ("proba", "scores"):
            if n in out and (out[n].ndim != 2 or out[n].shape[1] != k):
                raise Violation("classes", f"{what}: {n} of shape {out[n].shape} for {k} classes")
        if p is not None:
            if not np.isfinite(p).all():
                raise Violation("probabilities", f"{what}: {p[~np.isfinite(p).all(axis=1)][:2].tolist()}")
            if u["id"] == "democratic_co_learning":
                p = p[p.any(axis=1)]  # rows nobody votes on are zero
            if len(p) == 0:
                pass
            elif (p < -1e-6).any() or (p > 1 + 1e-5).any() or (np.abs(p.sum(axis=1) - 1) > 1e-3).any():
                i = int(np.argmax(np.abs(p.sum(axis=1) - 1) + (p < -1e-6).any(axis=1)))
                raise Violation("probabilities", f"{what}: row {i} is {p[i].tolist()}")
        q = out.get("predict")
        if q is None:
            return
        if not np.isin(q, labels).all():
            raise Violation("predicted-label", f"{what}: predicts {sorted(set(q.tolist()))}, the labels are {labels.tolist()}")
        rbf = u["id"] == "svm_rbf" or u["params"].get("classifier_id") == "svm_rbf"
        for n in ("scores", "proba"):
            s = out.get(n)
            if s is None or rbf or k != len(labels):
                continue
            t = np.sort(s, axis=1)
            sure = (t[:, -1] - t[:, -2]) > 1e-4 if k > 1 else np.ones(len(s), bool)
            best = labels[s.argmax(axis=1)]
            bad = np.flatnonzero(sure & (best != q))
            if len(bad):
                i = int(bad[0])
                raise Violation("predicted-label", f"{what}: row {i} is predicted {q[i]!r} while its {n} {s[i].tolist()} are highest for {best[i]!r}")


def labels_of(ds):
    b = build(ds)
    return arr(b.y if ds["kind"] in ("C", "T") else b.y_l)


# ------------------------------------------------------------------------------------------------ reported metrics
def metric(name, y, p):
    """The textbook definitions."""
    y, p = y.tolist(), p.tolist()
    if not y:
        return float("nan")
    if name == "accuracy":
        return sum(a == b for a, b in zip(y, p)) / len(y)
    out = []
    for cl in sorted(set(y)):
        tp = sum(a == b == cl for a, b in zip(y, p))
        rec = tp / y.count(cl)
        if name == "balanced_accuracy":
            out.append(rec)
        else:
            pre = tp / p.count(cl) if p.count(cl) else 0.0
            out.append(2 * pre * rec / (pre + rec) if pre + rec else 0.0)
    return sum(out) / len(out)


def op_metrics(rt, where, fname, splits, names):
    """One run, then its metrics computed again from the fitted model, the split and the labels."""
    from bench.orchestrators import method_inductive as mi
    from bench.orchestrators import method_transductive as mt
    from bench.orchestrators import sampling as so

    got = {}
    a, b, sr = mi.run, mt.run, so.run

    def ind(pre, sampling, *x, **k):
        r = a(pre, sampling, *x, **k)
        got["last"] = ("i", r[0], pre, sampling, k.get("views"))
        return r

    def tra(*x, **k):
        r = b(*x, **k)
        got["last"] = ("t", r[0], r[1], k)
        return r

    def samp(*x, **k):
        got["sampling"] = sr(*x, **k)
        return got["sampling"]

    mi.run, mt.run, so.run = ind, tra, samp
    try:
        out = one_run(rt, where, fname)
    finally:
        mi.run, mt.run, so.run = a, b, sr
    if out[:2] != ("rc", 0):
        return out, None
    last = got["last"]
    res = {}
    if last[0] == "i":
        _, m, pre, smp, views = last
        y_tr = arr(pre.dataset.train.y)
        lab = np.unique(y_tr[np.asarray(smp.indices["train_labeled"], dtype=np.int64)])
        for s in splits:
            part = "test" if smp.refs.get(s, "train") == "test" else "train"
            base = getattr(pre.dataset, part)
            idx = np.asarray(smp.indices[s], dtype=np.int64)
            y = arr(base.y)[idx]
            p = scores_of(m, base.X, idx, part, views)
            cols = lab if p.shape[1] == len(lab) else np.arange(p.shape[1])
            res[s] = recomputed(y, p, cols, names) + (len(lab), p.shape)
    else:
        _, m, data, k = last
        smp = got["sampling"]
        dset = k["dataset"]
        y = arr(dset.train.y)
        n = len(y)
        if k["use_test_split"] and dset.test is not None:
            y = np.concatenate([y, arr(dset.test.y)])
        p = arr(m.predict_proba(data))
        for s in splits:
            idx = np.asarray(smp.indices[s], dtype=np.int64)
            if smp.refs.get(s, "train") == "test":
                idx = idx + n
            res[s] = recomputed(y[idx], p[idx], np.arange(p.shape[1]), names) + (p.shape[1], p.shape)
    return out, res


def scores_of(m, X, idx, part, views):
    import torch

    tries = []
    xs = [X[idx]]
    if isinstance(xs[0], np.ndarray):
        xs.append(torch.as_tensor(xs[0].astype(np.float32)))
    for x in xs:
        q = x
        if views is not None:
            from modssc.inductive.types import InductiveDataset

            vs = {}
            for nm, d in views.views.items():
                v = getattr(d, part).X[idx]
                if not isinstance(x, np.ndarray) and isinstance(v, np.ndarray):
                    v = torch.as_tensor(v.astype(np.float32))
                vs[nm] = {"X": v}
            q = InductiveDataset(X_l=x, y_l=np.zeros(len(idx), np.int64), views=vs)
        try:
            return arr(m.predict_proba(q))
        except Exception as e:
            tries.append(repr(e)[:200])
    raise HarnessError(f"cannot ask {type(m).__name__}: {tries}")


def recomputed(y, p, cols, names):
    t = np.sort(p, axis=1)
    ties = int(((t[:, -1] - t[:, -2]) < 1e-5).sum()) if p.shape[1] > 1 and len(p) else 0
    pred = cols[p.argmax(axis=1)] if len(p) else cols[:0]
    return {n: metric(n, y, pred) for n in names}, len(y), ties


class E01(MethScenario):
    prop = "E01"
    quick_runs = 1000
    thorough_runs = 12000
    rule = ("one experiment over all 47 methods, with labelings that may miss classes, column orders, limits, searches and reported splits; "
            "afterwards every reported metric is computed again, by its definition, from the fitted model, the split's rows and their labels; "
            "non-trivial: the run succeeded")
    must_reach = ("inductive", "transductive", "few-classes", "search", "limits")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfg = gen_cfg(c, light=None)
        if c.flip(1, 2, "sparse"):
            nc = cfg["dataset"]["options"]["n_classes"]
            cfg["sampling"]["plan"]["labeling"] = c.pick([
                {"mode": "count", "value": 3, "strategy": "proportional", "min_per_class": 0}, {"mode": "fraction", "value": 0.12, "min_per_class": 0},
                {"mode": "count", "value": max(nc - 1, 2), "strategy": "balanced", "min_per_class": 0}], "sparse-how")
        ev = cfg["evaluation"]
        ev["metrics"] = c.pick([["accuracy", "macro_f1", "balanced_accuracy"], ["macro_f1"], ["balanced_accuracy", "accuracy"]], "all-metrics")
        ev["report_splits"] = c.pick([["val", "test"], ["test", "val", "train"], ["val"]], "splits2")
        if cfg.get("search"):
            cfg["search"]["objective"]["metric"] = ev["metrics"][0]
            probes["search"] = 1
        if cfg.get("limits"):
            probes["limits"] = 1
        write_cfg(sim, "w", "c.yaml", cfg)
        v, res = self.val(sim.run_one(sim.spawn("run", op_metrics, "w", "c.yaml", ev["report_splits"], ev["metrics"])), "run")
        runs = outputs(sim, "w")[0]
        sim.trace.append(f"experiment: {brief(cfg)} -> {v[:2]}")
        if v[:2] != ("rc", 0):
            return {"nontrivial": False, "kind": "failed", "probes": {"failed": 1}, "key": key(cfg)[:2000]}
        probes[cfg["method"]["kind"]] = 1
        got = runs[0].json["metrics"]
        if sorted(got) != sorted(set(ev["report_splits"])) or any(sorted(got[s]) != sorted(set(ev["metrics"])) for s in got):
            raise Violation("metric-missing", f"{brief(cfg)}: {ev['metrics']} of {ev['report_splits']} asked for, reported: { {s: sorted(got[s]) for s in got} }")
        for s in ev["report_splits"]:
            want, n, ties, ncls, shape = res[s]
            if ncls < cfg["dataset"]["options"]["n_classes"]:
                probes["few-classes"] = 1
            for m in ev["metrics"]:
                x = got[s][m]
                if x == "nan" or x != x or want[m] != want[m]:
                    if n and not (x != x or x == "nan") == (want[m] != want[m]):
                        raise Violation("metric-wrong", f"{brief(cfg)}: {m} of {s} is reported as {x}, it is {want[m]}")
                    continue
                if abs(x - want[m]) > 1e-6 and not ties:
                    raise Violation("metric-wrong", f"{brief(cfg)}: {m} of {s} ({n} rows, scores {shape}, {ncls} labeled classes) is reported as {x}, it is {want[m]}")
        return {"nontrivial": True, "kind": cfg["method"]["id"], "probes": probes, "key": key(cfg)[:2000]}


# ------------------------------------------------------------------------------- hidden labels, node by node
FUNCS = {  # function: (module, spec, accepts backend/device, parameters)
    "label_propagation": ("classic.label_propagation", "LabelPropagationSpec", True, [{}, {"max_iter": 5}, {"norm": "sym", "normalize_rows": False, "max_iter": 8}]),
    "label_spreading": ("classic.label_spreading", "LabelSpreadingSpec", True, [{"max_iter": 5, "alpha": 0.9}, {}, {"norm": "rw", "normalize_rows": False, "max_iter": 9}]),
    "laplace_learning": ("classic.laplace_learning", "LaplaceLearningSpec", True, [{}]),
    "lazy_random_walk": ("classic.lazy_random_walk", "LazyRandomWalkSpec", True, [{}, {"alpha": 0.5}]),
    "dynamic_label_propagation": ("classic.dynamic_label_propagation", "DynamicLabelPropagationSpec", True,
                                  [{"max_iter": 3, "k_neighbors": 4}, {"max_iter": 4, "k_neighbors": 99, "lambda_value": 0.0}]),
    "p_laplace_learning": ("pde.p_laplace_learning", "PLaplaceLearningSpec", False, [{"max_iter": 3}, {"p": 2.0, "max_iter": 4}]),
    "poisson_learning": ("pde.poisson_learning", "PoissonLearningSpec", False, [{"backend": "numpy", "max_iter": 10}, {"backend": "torch", "max_iter": 10},
                                                                              {"backend": "auto", "laplacian_kind": "rw", "max_iter": 6}]),
    "poisson_mbo": ("pde.poisson_mbo", "PoissonMBOSpec", False, [{"T": 8, "Ninner": 3, "Nouter": 2, "b_strategy": "labeled"}, {"T": 5, "Ninner": 2, "Nouter": 2, "b_strategy": "uniform"}]),
    "graph_mincuts": ("classic.graph_mincuts", "GraphMincutsSpec", False, [{}]),
}


def op_spread(rt, name, params, backend, ds):
    """A diffusion through its own function."""
    import importlib

    mod, spec, dev, _ = FUNCS[name]
    mod = importlib.import_module("modssc.transductive.methods." + mod)
    b = build(ds)
    kw = {}
    if dev:
        kw = {"backend": backend[0], "device": backend[1]}
    before = canon(b)
    try:
        r = getattr(mod, name)(n_nodes=len(b.y), edge_index=b.graph.edge_index, edge_weight=b.graph.edge_weight, y=b.y, labeled_mask=b.masks["train_mask"],
                               spec=getattr(mod, spec)(**params), **kw)
        out = ("ok", {"F": arr(r.F)})
    except Exception as e:
        out = ("raise", type(e).__name__, str(e)[:200])
    return out, diff(before, canon(b))


class M02(MethScenario):
    prop = "M02"
    quick_runs = 800
    thorough_runs = 30000
    rule = ("a graph method or diffusion function gets the same nodes twice, with other (permuted, random, constant or absent) labels on nodes "
            "outside the training and validation masks: its scores must not change; every backend of a function must give the same scores, and "
            "so must the same edges listed in another order; non-trivial: a label was changed or another backend or order was compared")
    must_reach = ("method", "function", "hidden", "backend", "permute", "resample", "one", "unknown", "edges", "rebuilt")

    def run(self, sim):
        c = sim.c
        probes = {}
        n = len(TRANS) + 3 * len(FUNCS)
        t = c.turn(n, "what")
        fn = None
        if t < len(TRANS):
            u = gen_unit(c, ("T", TRANS[t]))
            if u["params"].get("b_strategy") == "true":
                u["params"]["b_strategy"] = "labeled"
            probes["method"] = 1
        else:
            fn = sorted(FUNCS)[(t - len(TRANS)) // 3]
            u = {"kind": "T", "id": fn, "params": copy.deepcopy(c.pick(FUNCS[fn][3], "params")), "torch": False}
            backs = [("numpy", None), ("auto", None), ("torch", "cpu"), ("torch", None), ("auto", "cpu")]
            probes["function"] = 1
        ds = gen_data(c, u)
        seed = c.pick([0, 1, 7], "seed")
        brief = f"{u['id']}{' (function)' if fn else ''} {u['params']} on {ds}"
        moved = False

        def ask(d, back, name):
            if fn:
                out, mod = self.val(sim.run_one(sim.spawn(name, op_spread, fn, u["params"], back, d)), name)
                if mod:
                    raise Violation("input-modified", f"{brief}: {mod[0]}")
                return out
            steps, changed, left = self.val(sim.run_one(sim.spawn(name, op_life, [("new", "x", u, d, seed), ("data", "d", d), ("fit", "x", "d", seed),
                                                                                   ("ask", "x", "d", d, None)])), name)
            if changed:
                raise Violation("input-modified", f"{brief}: {changed[0]}")
            for x in steps:
                if x[2] and x[2][0] == "raise":
                    return x[2]
            return steps[-1][2]

        back = c.pick(backs, "backend") if fn else None
        a = ask(ds, back, "plain")
        sim.trace.append(f"{brief} {back}: {a[0]}")
        sim.note(brief)
        for j in range(1 + c.choose(2, "nvar")):
            how = c.pick(["permute", "resample", "one", "unknown"], "how")
            d2 = dict(ds, hidden=(how, c.choose(99, "hseed")))
            if not (labels_of(d2) != labels_of(ds)).any():
                continue
            b = ask(d2, back, f"hidden{j}")
            d = same(a, b)
            if d:
                raise Violation("hidden-labels", f"{brief} {back}: with other labels ({how}) on nodes that are neither trained on nor validated on: {d}")
            moved = True
            probes["hidden"] = probes[how] = 1
        if fn and FUNCS[fn][2] and (fn != "dynamic_label_propagation" or u["params"]["k_neighbors"] > 50) and a[0] == "ok" and c.flip(2, 3, "backends"):
            other = c.pick([x for x in backs if x != back], "other-backend")
            b = ask(ds, other, "backend")
            d = same(a, b, 2e-3)
            if d and np.isfinite(a[1]["F"]).all():
                raise Violation("backend", f"{brief}: {back} and {other} differ: {d}")
            probes["backend"] = 1
            moved = True
        if fn and a[0] == "ok" and fn not in ("graph_mincuts", "dynamic_label_propagation", "poisson_mbo") and c.flip(1, 2, "edge-order"):
            d2 = dict(ds, eorder=c.choose(99, "eorder"))
            b = ask(d2, back, "edges")
            d = same(a, b, 2e-3)
            if d and np.isfinite(a[1]["F"]).all():
                raise Violation("edge-order", f"{brief} {back}: the same edges in another order: {d}")
            probes["edges"] = 1
            moved = True
        if a[0] == "ok" and c.flip(1, 3, "again"):
            d = same(a, ask(ds, back, "again"))
            if d:
                raise Violation("not-repeatable", f"{brief} {back}: {d}")
            probes["rebuilt"] = 1
        return {"nontrivial": moved, "kind": ("function " if fn else "") + u["id"], "probes": probes, "key": brief[:2000]}


SCENARIOS = {"M01": M01(), "M02": M02(), "M03": M03(), "E01": E01()}
