"""What reaches a method: augmented rows, and the rows, labels, masks and graphs of a split."""

from __future__ import annotations

import copy
import os
import random
import sys
from collections import Counter

import numpy as np

from ..canon import canon, diff
from ..core import HarnessError, Violation, tb_tail
from .bench import BenchScenario, brief, gen_cfg, key, one_run, outputs, vary, write_cfg
from .meth import Cut, arr

# ------------------------------------------------------------------------------------------------- augmentation
KINDS = {  # kind: (modality, layouts, ops with parameters)
    "tabular": ("tabular", [("f8", (16,)), ("f4", (16,)), ("t4", (16,)), ("t8", (16,))], {
        "tabular.gaussian_noise": [{}, {"std": 0.5}, {"std": 0.0}], "tabular.feature_dropout": [{}, {"p": 0.5}, {"p": 0.0}, {"p": 1.0}],
        "tabular.swap_noise": [{}, {"p": 0.5}, {"p": 0.0}, {"p": 1.0}]}),
    "vision": ("vision", [("f4", (8, 9)), ("f4", (8, 9, 3)), ("f8", (3, 8, 9)), ("t4", (3, 8, 9)), ("t4", (8, 9)), ("t4", (8, 9, 3)), ("t4", (1, 8, 9))], {
        "vision.random_horizontal_flip": [{}, {"p": 1.0}, {"p": 0.0}, {"p": 0.3}], "vision.gaussian_noise": [{}, {"std": 0.4}, {"std": 0.0}],
        "vision.cutout": [{"length": 3}, {"frac": 0.5}, {"length": 2, "n_holes": 3, "fill": 0.5}, {"length": 1, "fill": -1.0}, {"frac": 0.0}, {"length": 8}, {"frac": 1.0}],
        "vision.random_crop_pad": [{"padding": 2}, {"pad": 1}, {"pad": 3}, {"pad": 0}, {}]}),
    "text": ("text", [("str", ())], {
        "text.lowercase": [{}], "text.word_dropout": [{}, {"p": 0.5}, {"p": 0.0}, {"p": 1.0}], "text.random_swap": [{}, {"n_swaps": 3}, {"n_swaps": 0}]}),
    "tokens": ("text", [("i8", (14,)), ("ti8", (14,)), ("i4", (14,))], {
        "text.token_mask": [{}, {"p": 0.5, "mask_token_id": 7}, {"p": 0.0}, {"p": 1.0}, {"p": 0.5, "pad_token_id": 3, "mask_token_id": 2}],
        "text.token_swap": [{}, {"n_swaps": 3}, {"n_swaps": 0}, {"n_swaps": 2, "pad_token_id": 3}]}),
    "audio": ("audio", [("f4", (20,)), ("t4", (2, 20)), ("f8", (1, 20))], {
        "audio.add_noise": [{}, {"std": 0.3}, {"std": 0.0}], "audio.time_shift": [{}, {"max_frac": 0.5}, {"max_frac": 0.0}, {"max_frac": 1.0}]}),
    "graph": ("graph", [("f4", "dict"), ("f4", "sample"), ("t4", "dict"), ("t4", "sample"), ("t4", "attr"), ("f4", "nw")], {
        "graph.edge_dropout": [{}, {"p": 0.5}, {"p": 0.0}, {"p": 1.0}], "graph.feature_mask": [{}, {"p": 0.5}, {"p": 0.0}, {"p": 1.0}]}),
}
CORE = {"core.identity": [{}], "core.ensure_float32": [{}]}
TORCH = {"t4": "float32", "t8": "float64", "ti8": "int64"}
WORDS = "Red blue GREEN the a Stone river Sky over under Light falls".split()


class Bag:
    """An object with attributes, as graph libraries have."""


def samples(ds):
    """The rows of a data description; graphs are one sample each."""
    r = np.random.default_rng(ds["seed"])
    n, dt, shape = ds["n"], ds["dtype"], ds["shape"]
    m = 1 if ds["same"] else n
    if ds["kind"] == "text":
        x = [" ".join(r.choice(WORDS, size=int(r.integers(0 if not ds["same"] else 9, 12)))) for _ in range(m)]
        x = x * (n // m)
        out = np.empty(n, dtype=object)
        out[:] = x
        return out
    if ds["kind"] == "graph":
        out = []
        for i in range(n):
            q = np.random.default_rng(ds["seed"] if ds["same"] else ds["seed"] * 100 + i)
            e = 30
            ei, w = q.integers(0, 12, size=(2, e)), (1.0 + np.arange(e)).astype(np.float32)
            x = q.normal(size=(12, 5)).astype(np.float32) + 3.0
            if dt == "t4":
                import torch

                ei, w, x = torch.as_tensor(ei), torch.as_tensor(w), torch.as_tensor(x)
            if shape == "dict":
                g = {"x": x, "edge_index": ei, "edge_weight": w, "note": "kept"}
            elif shape == "nw":
                g = {"x": x, "edge_index": ei.T, "note": "kept"}
            elif shape == "sample":
                from modssc.data_augmentation.types import GraphSample

                g = GraphSample(x=x, edge_index=ei, edge_weight=w, meta={"note": "kept"})
            else:
                g = Bag()
                g.x, g.edge_index, g.edge_weight, g.note = x, ei, w, "kept"
            out.append(g)
        return out
    if ds["kind"] == "tokens":
        a = r.integers(1, 30, size=(m, *shape))
        a[:, -4:] = 0
        a[:, 2] = 3
    else:
        a = r.normal(size=(m, *shape)) + 4.0
    a = np.concatenate([a] * (n // m)) if m != n else a
    if dt in TORCH:
        import torch

        return torch.as_tensor(a).to(getattr(torch, TORCH[dt]))
    return a.astype(dt)


def plain(x):
    """A value another process can receive and compare."""
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, Bag) or type(x).__name__ == "GraphSample":
        return {"x": plain(x.x), "edge_index": plain(x.edge_index), "edge_weight": plain(getattr(x, "edge_weight", None)),
                "note": getattr(x, "note", None) or x.meta.get("note"), "type": type(x).__name__}
    if hasattr(x, "detach"):
        return (str(x.dtype), x.detach().cpu().numpy().copy())
    if isinstance(x, np.ndarray):
        return ("U" if x.dtype.kind == "U" else str(x.dtype), x.copy())
    return x


def rows_of(x, n):
    """The rows of an output of the orchestrator."""
    if x is None:
        return None
    return [plain(x[i]) if not isinstance(x[i], np.str_) else str(x[i]) for i in range(n)]


def op_aug(rt, script):
    from modssc.data_augmentation.api import build_strategy
    from modssc.data_augmentation.types import AugmentationContext

    from bench.orchestrators import augmentation as orch

    res, changed, strat = [], [], {}

    def context(ds, seed, i, epoch=0):
        return AugmentationContext(seed=seed, sample_id=i, epoch=epoch, modality=KINDS[ds["kind"]][0])

    for st in script:
        try:
            if st[0] == "noise":
                random.seed(st[1])
                np.random.seed(st[1])
                if "torch" in sys.modules:
                    sys.modules["torch"].manual_seed(st[1])
                res.append(None)
                continue
            _, ds, weak, strong, seed, ids, views, idx = st[:8]
            X = samples(ds)
            before = canon([plain(v) for v in X])
            if st[0] in ("run", "cut"):
                kw = dict(weak_plan={"steps": weak}, strong_plan={"steps": strong}, seed=seed, mode="fixed", modality=KINDS[ds["kind"]][0], strong_views=views)
                if ds["kind"] == "graph":
                    outs = [orch.run(X[i], sample_ids=np.array([ids[i]]), **kw) for i in idx]
                    r = ("ok", [None if v[0] is None else [plain(o) for o in v] for v in zip(*outs)])
                else:
                    sel = X[idx] if idx != list(range(ds["n"])) else X
                    kw["sample_ids"] = None if ids is None else np.asarray([ids[i] for i in idx], dtype=np.int64)
                    if st[0] == "cut":
                        with Cut(st[8], {"interrupt": KeyboardInterrupt, "memory": MemoryError}[st[9]]) as cut:
                            try:
                                orch.run(sel, **kw)
                            except (KeyboardInterrupt, MemoryError):
                                pass
                        r = ("cut", cut.hit)
                    else:
                        r = ("ok", [rows_of(o, len(idx)) for o in orch.run(sel, **kw)])
            else:  # row by row with one strategy object
                k = repr((weak, strong))
                if k not in strat:
                    strat[k] = build_strategy(weak=orch._plan_from_dict({"steps": weak}, modality=None), strong=orch._plan_from_dict({"steps": strong}, modality=None))
                s = strat[k]
                epoch = st[8]
                ww, ss, s1 = [], [], []
                for i in idx:
                    w, q = s.apply(X[i], ctx=context(ds, seed, ids[i], epoch))
                    ww.append(plain(w))
                    ss.append(plain(q))
                    s1.append(plain(s.strong.apply(X[i], ctx=context(ds, seed + 1, ids[i], epoch))))
                r = ("ok", [ww, ss, s1 if views > 1 else None])
            d = diff(before, canon([plain(v) for v in X]))
            if d:
                changed.append(d[0])
        except Exception as e:
            r = ("raise", type(e).__name__, str(e)[:200], tb_tail(e))
        res.append(r)
    return res, changed


def gen_ops(c, kind, label, n=None):
    _, _, ops = KINDS[kind]
    pool = list(ops) + list(ops) + (list(CORE) if kind not in ("text", "graph") else ["core.identity"])
    out = []
    for _ in range(n or c.pick([1, 2, 3], label)):
        o = c.pick(pool, label + "-op")
        out.append({"id": o, "params": copy.deepcopy(c.pick(ops.get(o) or CORE[o], label + "-p"))})
    return out


def values(x):
    return x[1] if isinstance(x, tuple) else x


class A01(BenchScenario):
    prop = "A01"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("random weak and strong plans over every augmentation and container, applied to all rows at once; then rows in other subsets and orders, "
            "row by row with reused strategies, after interrupted runs, other plans and ambient random state, or in another interpreter; each row must come "
            "out the same, each operation must do what it says and no more, and rows, seeds, epochs and the second strong view must draw differently; "
            "non-trivial: a second execution was compared")
    must_reach = ("tabular", "vision", "text", "tokens", "audio", "graph", "subset", "rowwise", "cut", "interpreter", "same-rows", "two-views", "op")
    real = ["data augmentation operations, plans and registry", "the benchmark's augmentation stage", "numpy and torch on one thread"]
    stub = ["clock", "entropy", "samples made by the harness"]
    assumptions = ["a run is interrupted at a call boundary of the code under test"]

    def warm(self, tmp):
        for kind, (_, lay, ops) in KINDS.items():
            ds = {"kind": kind, "dtype": lay[0][0], "shape": lay[0][1], "n": 2, "seed": 0, "same": False}
            for o in list(ops) + ["core.identity"]:
                op_aug(None, [("run", ds, [{"id": o}], [{"id": o}], 0, [0, 1], 1, [0, 1])])

    def setup(self):
        self.start_peer()

    def val(self, p, what):
        if p.state == "crashed" or p.result is None:
            raise HarnessError(f"{what}: process ended")
        if p.result[0] != "ok":
            raise Violation("process-died", f"{what}: {p.result}")
        return p.result[1]

    def run(self, sim):
        c = sim.c
        probes = {}
        kinds = list(KINDS)
        kind = kinds[c.turn(len(kinds), "kind")]
        probes[kind] = 1
        dt, shape = c.pick(KINDS[kind][1], "layout")
        same = c.flip(1, 3, "same")
        ds = {"kind": kind, "dtype": dt, "shape": shape, "n": 40 if same else c.pick([8, 5, 1, 2, 12], "n"), "seed": c.choose(50, "dseed"), "same": same}
        n = ds["n"]
        weak = gen_ops(c, kind, "weak", 1)
        strong = gen_ops(c, kind, "strong")
        if c.flip(1, 2, "one-op"):
            strong = gen_ops(c, kind, "strong", 1)
        seed = c.pick([0, 1, 7, 123456], "seed")
        views = c.pick([1, 2], "views")
        how = c.pick(["count", "any", "big", "none"], "ids")
        ids = list(range(n))
        if how == "any":
            ids = [int(v) for v in np.random.default_rng(c.choose(1000, "idseed")).permutation(3 * n)[:n]]
        elif how == "big":
            ids = [10 ** 9 + 3 * i for i in range(n)]
        if views == 2:
            probes["two-views"] = 1
        call_ids = None if how == "none" and kind != "graph" else ids
        what = f"{kind} {dt}{shape} n={n} same={same} weak={weak} strong={strong} seed={seed} ids={how} views={views}"
        sim.trace.append(what)
        sim.note(what)
        base = ("run", ds, weak, strong, seed, call_ids, views, list(range(n)))
        res, changed = self.val(sim.run_one(sim.spawn("plain", op_aug, [base])), "plain")
        if changed:
            raise Violation("input-modified", f"{what}: {changed[0]}")
        want = res[0]
        if want[0] != "ok":
            return {"nontrivial": False, "kind": "failed", "probes": {"failed": 1}, "key": what[:2000]}
        out = want[1]
        if (out[2] is not None) != (views == 2):
            raise Violation("views", f"{what}: second strong view is {'missing' if views == 2 else 'made'}")
        X = samples(ds)
        x = [plain(X[i]) for i in range(n)]
        for steps, rows, name in ((weak, out[0], "weak"), (strong, out[1], "strong"), (strong, out[2], "second strong")):
            if rows is None:
                continue
            if len(rows) != n:
                raise Violation("row-count", f"{what}: {len(rows)} {name} rows")
            if len(steps) == 1:
                bad = check_op(steps[0]["id"], steps[0].get("params", {}), x, rows, shape)
                if bad:
                    raise Violation("operation", f"{what}: {name}: {bad}")
                probes["op"] = 1
        if same and n >= 40:
            probes["same-rows"] = 1
            self.draws(sim, what, weak, strong, out, ds, seed, ids)
        # again, somewhere else
        script = []
        for _ in range(c.choose(3, "before")):
            b = c.pick(["noise", "other", "cut", "cut"], "b")
            if b == "noise":
                script.append(("noise", c.choose(99, "salt")))
            elif b == "other":
                script.append(("run", ds, gen_ops(c, kind, "ow"), gen_ops(c, kind, "os"), seed + c.choose(2, "oseed"), call_ids, c.pick([1, 2], "ov"), list(range(n))))
            elif kind != "graph":
                probes["cut"] = 1
                script.append(("cut", *base[1:], 1 + c.choose(60, "cut-at"), c.pick(["interrupt", "memory"], "cut-how")))
        idx = list(range(n))
        if c.flip(2, 3, "subset"):
            idx = [i for i in idx if c.flip(2, 3, "keep")] or [n - 1]
            for i in range(len(idx) - 1, 0, -1):
                j = c.choose(i + 1, "perm")
                idx[i], idx[j] = idx[j], idx[i]
            probes["subset"] = 1
        if c.flip(1, 3, "rowwise"):
            script.append(("strat", ds, weak, strong, seed, ids, views, [i for i in reversed(range(n))], 3))
            script.append(("strat", ds, weak, strong, seed, ids, views, idx, 0))
            probes["rowwise"] = 1
        else:
            script.append(("run", ds, weak, strong, seed, ids if idx != list(range(n)) else call_ids, views, idx))
        if c.flip(1, 4, "peer"):
            k, v = self.peer.call(op_aug, script, root=sim.root, salt=c.choose(9, "psalt"))
            if k != "ok":
                raise HarnessError(f"peer: {v}")
            probes["interpreter"] = 1
        else:
            v = self.val(sim.run_one(sim.spawn("again", op_aug, script)), "again")
        res, changed = v
        sim.note(repr(script))
        for r in res:
            if r == ("cut", True):
                sim.hit("interrupted-run")
        if changed:
            raise Violation("input-modified", f"{what}: {changed[0]}")
        got = res[-1]
        hist = [s[0] for s in script]
        if got[0] != "ok":
            raise Violation("row-differs", f"{what}: rows {idx} after {hist}: {got[1:]}")
        for name, a, b in zip(("weak", "strong", "second strong"), out, got[1]):
            if a is None:
                continue
            for j, i in enumerate(idx):
                d = diff(canon(a[i]), canon(b[j]))
                if d:
                    raise Violation("row-differs", f"{what}: {name} row {i} as row {j} of {len(idx)} after {hist}: {d[0]}")
        return {"nontrivial": True, "kind": kind, "probes": probes, "key": what[:2000]}

    def draws(self, sim, what, weak, strong, out, ds, seed, ids):
        """Equal rows: what differs between outputs is drawn at random."""
        n = ds["n"]
        at = [(seed, 0), (seed, 1), (seed + 1, 0), (seed + 1, 1), (seed, 2), (seed + 2, 0), (seed + 1, 2), (seed + 2, 1)]
        script = [("strat", ds, weak, strong, s_, ids, 1, list(range(n)), e_) for s_, e_ in at]
        res, _ = self.val(sim.run_one(sim.spawn("draws", op_aug, script)), "draws")
        for steps, w, name in ((weak, 0, "weak"), (strong, 1, "strong")):
            if len(steps) != 1 or not is_random(steps[0]["id"], steps[0].get("params", {})):
                continue
            drawn = [(f"seed {s_} epoch {e_}", [repr(canon(v)) for v in r[1][w]]) for r, (s_, e_) in zip(res, at)]
            if w == 1 and out[2] is not None:  # it may well be another seed's first
                drawn = drawn[:2] + [(f"seed {seed}, second view,", [repr(canon(v)) for v in out[2]])] + drawn[2:]
            if len(set(drawn[0][1])) == 1:
                raise Violation("same-draws", f"{what}: {name}: all {n} equal rows come out equal")
            pool = Counter(v for _, a in drawn for v in a)
            alike = sum(v * v for v in pool.values()) / sum(pool.values()) ** 2
            if alike ** n > 1e-12:
                continue
            for i, (v, a) in enumerate(drawn):
                for u, b in drawn[:i]:
                    if "second" in u and not v.startswith(f"seed {seed} "):
                        continue
                    if a == b:
                        raise Violation("same-draws", f"{what}: {name}: {v} draws the same as {u}")
                    if len(set(a)) > 4 and (a[1:] == b[:-1] or b[1:] == a[:-1]):
                        raise Violation("same-draws", f"{what}: {name}: {v} draws the same as {u}, one row on")


def is_random(op, p):
    if op.startswith("core.") or op == "text.lowercase":
        return False
    if p.get("std") == 0 or p.get("p") == 0 or p.get("pad") == 0 or p.get("max_frac") == 0 or p.get("n_swaps") == 0 or p.get("frac") in (0, 1):
        return False
    if op in ("vision.random_horizontal_flip", "tabular.feature_dropout", "text.token_mask", "graph.edge_dropout", "graph.feature_mask") and p.get("p") == 1:
        return False
    if op == "vision.cutout" and p.get("length") == 8:
        return True  # left is 0 or 1
    return True


def subsequence(a, b):
    """Is a a subsequence of b?"""
    it = iter(b)
    return all(any(v == w for w in it) for v in a)


def axes(shape):
    """(height, width) axes of an image of this shape."""
    return (0, 1) if len(shape) == 2 or shape[2] in (1, 3, 4) else (1, 2)


def check_op(op, p, xs, os_, shape):
    """Does the operation do what it says, on every row?"""
    if op == "core.identity":
        return next((f"row {i} changed" for i, (x, o) in enumerate(zip(xs, os_)) if diff(canon(x), canon(o))), None)
    if op == "core.ensure_float32":
        for i, (x, o) in enumerate(zip(xs, os_)):
            if not o[0].endswith("float32") or not np.array_equal(o[1], x[1].astype(np.float32)):
                return f"row {i} is not the same in float32"
        return None
    if op.startswith("text.") and not op.startswith("text.token"):
        for i, (x, o) in enumerate(zip(xs, os_)):
            a, b = x.split(), o.split()
            if op == "text.lowercase":
                ok = o == x.lower()
            elif op == "text.word_dropout":
                q = p.get("p", 0.1)
                ok = subsequence(b, a) and (bool(b) or not a) and (q != 0 or b == a) and (q != 1 or len(b) == min(1, len(a)))
            else:
                k = p.get("n_swaps", 1)
                ok = sorted(a) == sorted(b) and (k > 0 or a == b) and sum(u != v for u, v in zip(a, b)) <= 2 * k
            if not ok:
                return f"row {i}: {x!r} became {o!r}"
        if op == "text.word_dropout" and p.get("p") == 0.5 and len(xs) == 40:
            f = sum(len(o.split()) for o in os_) / sum(len(x.split()) for x in xs)
            if not 0.3 < f < 0.7:
                return f"a share of {f:.2f} of the words is left"
        return None
    if op.startswith("graph."):
        return check_graph(op, p, xs, os_)
    for i, (x, o) in enumerate(zip(xs, os_)):
        if x[0] != o[0] or x[1].shape != o[1].shape:
            return f"row {i}: {x[0]}{x[1].shape} became {o[0]}{o[1].shape}"
    x = np.stack([v[1] for v in xs])
    o = np.stack([v[1] for v in os_])
    ch = o != x
    many = len(xs) == 40
    share = float(ch.mean())
    if op in ("tabular.gaussian_noise", "vision.gaussian_noise", "audio.add_noise"):
        std = p.get("std", {"t": 0.1, "v": 0.05, "a": 0.005}[op[0]])
        if std == 0:
            return "changed without noise" if ch.any() else None
        d = (o - x).astype(np.float64)
        if d.size >= 60 and not 0.6 * std < d.std() < 1.6 * std:
            return f"noise of deviation {d.std():.4f} instead of {std}"
        if d.size >= 60 and abs(d.mean()) > 5 * std / np.sqrt(d.size) + 1e-6:
            return f"noise of mean {d.mean():.4f}"
        return None
    if op == "tabular.feature_dropout":
        q = p.get("p", 0.1)
        if (ch & (o != 0)).any():
            return "a kept feature changed"
        return rate(share, q, many)
    if op == "tabular.swap_noise":
        q = p.get("p", 0.15)
        if ch.any() and ch.sum() > 60 and not (0.6 < o[ch].std() < 1.6 and abs(o[ch].mean()) < 0.7):
            return f"swapped values of mean {o[ch].mean():.2f} and deviation {o[ch].std():.2f}"
        return rate(share, q, many)
    if op == "text.token_mask":
        q, m, pad = p.get("p", 0.1), p.get("mask_token_id", 1), p.get("pad_token_id", 0)
        if (ch & (x == pad)).any():
            return "a pad changed"
        if (ch & (o != m)).any():
            return "a token became something other than the mask"
        el = (x != pad) & (x != m)
        return rate(float(ch[el].mean()), q, many)
    if op == "text.token_swap":
        k, pad = p.get("n_swaps", 1), p.get("pad_token_id", 0)
        if ((x == pad) != (o == pad)).any():
            return "a pad moved"
        if (np.sort(x, axis=1) != np.sort(o, axis=1)).any():
            return "tokens were lost or made"
        if ch.sum(axis=1).max() > 2 * k:
            return f"{ch.sum(axis=1).max()} tokens moved by {k} swaps"
        return None
    if op == "audio.time_shift":
        m = int(round(p.get("max_frac", 0.1) * x.shape[-1]))
        for i in range(len(x)):
            if not any(np.array_equal(o[i], np.roll(x[i], s, axis=-1)) for s in range(-m, m + 1)):
                return f"row {i} is no circular shift by up to {m}"
        if many and m and not {True, False} <= {np.array_equal(o[i], np.roll(x[i], s, axis=-1)) for i in range(len(x)) for s in (range(1, m + 1))}:
            return "shifts to one side only"
        return None
    h, w = axes(x.shape[1:])
    if op == "vision.random_horizontal_flip":
        q = p.get("p", 0.5)
        fl = [np.array_equal(o[i], np.flip(x[i], axis=w)) for i in range(len(x))]
        idn = [np.array_equal(o[i], x[i]) for i in range(len(x))]
        if not all(a or b for a, b in zip(fl, idn)):
            return f"row {fl.index(False)} is neither flipped nor the same"
        return rate(float(np.mean(fl)), q, many)
    if op == "vision.random_crop_pad":
        pad = p["pad"] if "pad" in p else p.get("padding", 4)
        seen = set()
        for i in range(len(x)):
            big = np.pad(x[i], [(pad, pad) if a in (h, w) else (0, 0) for a in range(x[i].ndim)], mode="reflect")
            hit = None
            for t in range(2 * pad + 1):
                for l_ in range(2 * pad + 1):
                    sl = [slice(None)] * x[i].ndim
                    sl[h], sl[w] = slice(t, t + x[i].shape[h]), slice(l_, l_ + x[i].shape[w])
                    if np.array_equal(o[i], big[tuple(sl)]):
                        hit = (t, l_)
            if hit is None:
                return f"row {i} is no crop of the padded image"
            seen.add(hit)
        if many and pad and (len({a for a, _ in seen}) < 2 or len({b for _, b in seen}) < 2):
            return f"all crops at {sorted(seen)}"
        return None
    if op == "vision.cutout":
        fill, holes = p.get("fill", 0.0), p.get("n_holes", 1)
        H, W = x.shape[1:][h], x.shape[1:][w]
        if p.get("frac") == 0.0:
            return "changed without a hole" if ch.any() else None
        ln = max(1, int(round(p["frac"] * min(H, W)))) if "frac" in p else p.get("length", 16)
        for i in range(len(x)):
            if (o[i][ch[i]] != np.asarray(fill, dtype=o.dtype)).any():
                return f"row {i} has other values than the fill"
            other = tuple(a for a in range(x[i].ndim) if a not in (h, w))
            hole = ch[i].all(axis=other) if other else ch[i]
            if (ch[i].any(axis=other) if other else ch[i]).sum() != hole.sum():
                return f"row {i}: a hole in some channels only"
            tall, wide = np.flatnonzero(hole.any(axis=1)), np.flatnonzero(hole.any(axis=0))
            if holes == 1 and not (hole.sum() == ln * ln and np.ptp(tall) == ln - 1 and np.ptp(wide) == ln - 1):
                return f"row {i}: no square of {ln} but {len(tall)}x{len(wide)} with {int(hole.sum())} pixels"
            if holes > 1 and not ln * ln <= hole.sum() <= holes * ln * ln:
                return f"row {i}: {int(hole.sum())} pixels in {holes} holes of {ln}"
        return None
    raise HarnessError(op)


def rate(f, p, many):
    if p in (0, 1):
        return None if f == p else f"changed a share of {f:.3f} with p={p}"
    if many and not p - 0.3 < f < p + 0.3 or many and f == 0:
        return f"changed a share of {f:.3f} with p={p}"
    return None


def check_graph(op, p, gs, os_):
    q = p.get("p", 0.2 if op.endswith("edge_dropout") else 0.1)
    hit = tot = 0
    for i, (g, o) in enumerate(zip(gs, os_)):
        if set(g) != set(o) or g.get("note") != o.get("note") or g.get("type") != o.get("type"):
            return f"graph {i}: fields {sorted(g)} became {sorted(o)}"
        if op.endswith("edge_dropout"):
            if diff(canon(g["x"]), canon(o["x"])):
                return f"graph {i}: dropping edges changed the features"
            a, b = g["edge_index"][1], o["edge_index"][1]
            a, b = (a if a.shape[0] == 2 else a.T), (b if b.shape[0] == 2 else b.T)
            w, v = g.get("edge_weight"), o.get("edge_weight")
            ea = [(*e, None if w is None else float(w[1][j])) for j, e in enumerate(zip(*a.tolist()))]
            eb = [(*e, None if v is None or j >= len(v[1]) else float(v[1][j])) for j, e in enumerate(zip(*b.tolist()))]
            if not subsequence(eb, ea) or v is not None and len(v[1]) != len(eb):
                return f"graph {i}: what is left are not edges of the graph with their weights"
            hit, tot = hit + len(ea) - len(eb), tot + len(ea)
        else:
            for k in ("edge_index", "edge_weight"):
                if diff(canon(g.get(k)), canon(o.get(k))):
                    return f"graph {i}: masking features changed the {k}"
            a, b = g["x"], o["x"]
            if a[0] != b[0] or a[1].shape != b[1].shape or ((a[1] != b[1]) & (b[1] != 0)).any():
                return f"graph {i}: a feature was changed and not masked"
            hit, tot = hit + int((a[1] != b[1]).sum()), tot + a[1].size
    return rate(hit / tot, q, len(gs) == 40)


# ----------------------------------------------------------------------------------------- rows, labels and graphs
class FirstFit:
    """Notes the arguments of the first fit of a method inside a stage."""

    def __init__(self, sink):
        self.sink, self.old = sink, None

    def __call__(self, frame, event, arg):
        if event != "call" or frame.f_code.co_name != "fit":
            return
        for v in frame.f_locals.values():
            if type(v).__name__ in ("InductiveDataset", "NodeDataset"):
                sys.setprofile(self.old)
                self.sink(v)
                return

    def __enter__(self):
        self.old = sys.getprofile()
        sys.setprofile(self)

    def __exit__(self, *a):
        sys.setprofile(self.old)


def compare(name, got, want, out):
    if got is None or want is None:
        if (got is None) != (want is None):
            out.append(f"{name} is {'missing' if got is None else 'given'}")
        return
    if isinstance(got, dict):
        for k in want if isinstance(want, dict) else []:
            compare(f"{name}.{k}", got.get(k), want[k], out)
        return
    g, w = arr(got), arr(want)
    if g.shape != w.shape:
        out.append(f"{name} has shape {g.shape}, {w.shape} expected")
    elif w.dtype.kind in "fc" or g.dtype.kind in "fc":
        if not np.allclose(g.astype(np.float64), w.astype(np.float64), rtol=1e-5, atol=1e-6, equal_nan=True):
            bad = [i for i in range(len(g)) if not np.allclose(g[i].astype(np.float64), w[i].astype(np.float64), rtol=1e-5, atol=1e-6, equal_nan=True)]
            out.append(f"{name}: rows {bad[:6]} ({len(bad)} of {len(g)}) are not those of the split")
    elif not np.array_equal(g, w):
        bad = np.flatnonzero((g != w).reshape(len(g), -1).any(axis=1)).tolist() if g.ndim else [0]
        out.append(f"{name}: rows {bad[:6]} ({len(bad)} of {len(g)}) are not those of the split")


def rows_at(X, idx):
    if isinstance(X, dict):
        return {"x": arr(X["x"])[idx]}
    return arr(X)[idx]


def op_given(rt, where, fname, aug):
    """One run; every method fit in it is compared with the split, the features and the plans."""
    from bench.orchestrators import augmentation as ao
    from bench.orchestrators import graph as go
    from bench.orchestrators import method_inductive as mi
    from bench.orchestrators import method_transductive as mt
    from bench.orchestrators import sampling as so

    got, bad, fits = {}, [], []
    a, b, sr, ar, gr = mi.run, mt.run, so.run, ao.run, go.build

    def samp(*x, **k):
        got["sampling"] = sr(*x, **k)
        return got["sampling"]

    def augm(*x, **k):
        got["seed"], got["ids"] = k.get("seed"), k.get("sample_ids")
        return ar(*x, **k)

    def gra(*x, **k):
        got["graph"] = gr(*x, **k)
        return got["graph"]

    def ind(pre, sampling, *x, **k):
        seen = []
        with FirstFit(lambda d: (seen.append(1), check_inductive(d, pre, got["sampling"], k, got, aug, bad, fits))):
            r = a(pre, sampling, *x, **k)
        if not seen:
            raise HarnessError("no fit was seen")
        return r

    def tra(*x, **k):
        seen = []
        with FirstFit(lambda d: (seen.append(1), check_transductive(d, k["dataset"], got["sampling"], k, got, bad, fits))):
            r = b(*x, **k)
        if not seen:
            raise HarnessError("no fit was seen")
        return r

    mi.run, mt.run, so.run, ao.run, go.build = ind, tra, samp, augm, gra
    try:
        out = one_run(rt, where, fname)
    finally:
        mi.run, mt.run, so.run, ao.run, go.build = a, b, sr, ar, gr
    return out[:3], bad, fits


def check_inductive(d, pre, smp, k, got, aug, bad, fits):
    tr = pre.dataset.train
    il, iu = (np.asarray(smp.indices[n], dtype=np.int64) for n in ("train_labeled", "train_unlabeled"))
    fits.append(("inductive", len(il), len(iu)))
    compare("X_l", d.X_l, rows_at(tr.X, il), bad)
    compare("y_l", d.y_l, arr(tr.y)[il], bad)
    compare("X_u", d.X_u, rows_at(tr.X, iu), bad)
    if aug is not None:
        from modssc.data_augmentation.api import build_pipeline
        from modssc.data_augmentation.types import AugmentationContext

        from bench.orchestrators import augmentation as ao

        def made(plan, seed):
            p = build_pipeline(ao._plan_from_dict(plan, modality=None))
            return np.stack([arr(p.apply(tr.X[int(i)], ctx=AugmentationContext(seed=seed, sample_id=int(i), modality=aug.get("modality")))) for i in iu])

        if len(iu):
            fits.append(("augmented",))
            compare("X_u_w", d.X_u_w, made(aug["weak"], got["seed"]), bad)
            compare("X_u_s", d.X_u_s, made(aug["strong"], got["seed"]), bad)
            s1 = (d.views or {}).get("X_u_s_1") if isinstance(d.views, dict) else None
            if s1 is not None:
                fits.append(("second strong",))
                compare("the second strong view", s1, made(aug["strong"], got["seed"] + 1), bad)
    views = k.get("views")
    if views is not None:
        fits.append(("views",))
        for n, v in views.views.items():
            compare(f"view {n} X_l", d.views[n]["X_l"], rows_at(v.train.X, il), bad)
            compare(f"view {n} X_u", d.views[n]["X_u"], rows_at(v.train.X, iu), bad)
    if isinstance(d.meta, dict) and "idx_u" in d.meta:
        compare("idx_u", d.meta["idx_u"], iu, bad)


def check_transductive(d, ds, smp, k, got, bad, fits):
    tr, te = ds.train, ds.test if k["use_test_split"] else None
    n = len(arr(tr.y))
    X, y = arr(tr.X), arr(tr.y)
    if te is not None:
        X, y = np.concatenate([X, arr(te.X)]), np.concatenate([y, arr(te.y)])

    def mask(name):
        m = np.zeros(len(y), dtype=bool)
        if name in smp.indices:
            m[np.asarray(smp.indices[name], dtype=np.int64) + (n if smp.refs.get(name, "train") == "test" else 0)] = True
        return m

    fits.append(("transductive", int(mask("train_labeled").sum()), len(y)))
    compare("X", d.X, X, bad)
    lab = mask("train_labeled")
    compare("the labels of labeled rows", arr(d.y)[lab], y[lab], bad)
    if (arr(d.y)[mask("train_unlabeled")] != -1).any():
        bad.append("unlabeled rows come with their labels")
    compare("the labeled mask", d.masks["train_mask"], lab, bad)
    for n_, m in (("val_mask", "val"), ("test_mask", "test"), ("unlabeled_mask", "train_unlabeled")):
        if n_ in d.masks:
            compare(f"the {n_}", d.masks[n_], mask(m), bad)
    if "graph" in got and got["graph"] is not None:
        g = got["graph"]
        g = g[0] if isinstance(g, tuple) else g
        compare("edge_index", d.graph.edge_index, g.edge_index, bad)
        compare("edge_weight", d.graph.edge_weight, g.edge_weight, bad)
        if d.graph.n_nodes != len(y):
            bad.append(f"a graph of {d.graph.n_nodes} nodes for {len(y)} rows")


def graph_input(ds):
    r = np.random.default_rng(ds["seed"])
    n, e = ds["n"], ds["e"]
    X = {"x": r.normal(size=(n, 3)), "edge_index": r.integers(0, n, size=(2, e)), "tag": np.arange(n) * 10, "note": "kept"}
    if ds["w"]:
        X["edge_weight"] = 1.0 + np.arange(e, dtype=np.float64)
    if ds["torch"]:
        import torch

        X = {k: torch.as_tensor(v) if isinstance(v, np.ndarray) else v for k, v in X.items()}
    return X


def op_slices(rt, ds, steps):
    """A graph cut to rows, again and again, then joined."""
    from modssc.inductive.methods.helpers.torch_support import concat_data, slice_data

    from bench.orchestrators.slicing import select_rows

    res = []
    X = graph_input(ds)
    before = canon(plain(X))
    for how, sets in steps:
        parts = []
        for idx in sets:
            if how == "select":
                parts.append(select_rows(X, np.asarray(idx), context="given"))
            else:
                import torch

                parts.append(slice_data(X, slice(idx[0], idx[-1] + 1) if how == "range" else torch.as_tensor(idx)))
        one = concat_data(parts) if len(parts) > 1 else parts[0]
        res.append([plain(p) for p in parts] + [plain(one)])
        X = one
    return res, before == canon(plain(graph_input(ds)))


def cut_graph(g, idx):
    """The graph of some rows, in their order: (features, tags, edges with weights)."""
    x, tag, edges = g
    at = {v: i for i, v in enumerate(idx)}
    return x[idx], tag[idx], [(at[a], at[b], w) for a, b, w in edges if a in at and b in at]


class B07(BenchScenario):
    prop = "B07"
    quick_runs = 900
    thorough_runs = 30000
    rule = ("one experiment over all 47 methods; at every fit (each trial's and the last) the rows, labels, augmented rows, views, masks and graph given to the "
            "method are compared with the split, the processed dataset and the plans; every third run cuts and joins graph inputs instead; "
            "non-trivial: a fit or a cut was compared")
    must_reach = ("inductive", "transductive", "augmented", "second strong", "views", "search", "cut", "weights")

    def warm(self, tmp):
        BenchScenario.warm(self, tmp)
        for t in (False, True):
            op_slices(None, {"seed": 0, "n": 6, "e": 9, "w": True, "torch": t}, [("select", [[0, 1], [3, 2]])] if not t else [("slice", [[0, 1], [3, 2]])])

    def val(self, p, what):
        if p.state == "crashed" or p.result is None:
            raise HarnessError(f"{what}: process ended")
        if p.result[0] != "ok":
            raise Violation("process-died", f"{what}: {p.result}")
        return p.result[1]

    def run(self, sim):
        c = sim.c
        if c.turn(3, "part") == 2:
            return self.cuts(sim)
        probes = {}
        cfg = gen_cfg(c, light=None)
        aug = cfg.get("augmentation")
        if aug is not None and c.flip(1, 3, "identity"):
            aug["weak"] = {"steps": [{"id": "core.identity"}]}
        if cfg.get("search"):
            probes["search"] = 1
        write_cfg(sim, "w", "c.yaml", cfg)
        what = brief(cfg)
        v, bad, fits = self.val(sim.run_one(sim.spawn("run", op_given, "w", "c.yaml", aug)), "run")
        sim.trace.append(f"experiment: {what} -> {v[:3]}, fits {fits}")
        for f in fits:
            probes[f[0]] = 1
        if bad:
            raise Violation("wrong-rows", f"{what}: {bad[0]}")
        return {"nontrivial": bool(fits), "kind": cfg["method"]["id"], "probes": probes, "key": key(cfg)[:2000]}

    def cuts(self, sim):
        c = sim.c
        ds = {"seed": c.choose(500, "gseed"), "n": c.pick([8, 5, 12, 20], "gn"), "w": c.flip(2, 3, "w"), "torch": c.flip(2, 3, "t")}
        ds["e"] = c.pick([ds["n"], 2 * ds["n"], 3 * ds["n"] + 1, 3, 0], "ge")
        probes = {"cut": 1}
        if ds["w"]:
            probes["weights"] = 1
        steps, n = [], ds["n"]
        for lvl in range(1 + c.choose(2, "levels")):
            how = c.pick(["select", "slice", "range"] if ds["torch"] or lvl else ["select"], "how")
            sets = []
            for _ in range(1 + c.choose(3 if lvl == 0 else 1, "parts")):
                if how == "range":
                    lo = c.choose(n, "lo")
                    sets.append(list(range(lo, lo + 1 + c.choose(n - lo, "len"))))
                else:
                    p = list(range(n))
                    for i in range(n - 1, 0, -1):
                        j = c.choose(i + 1, "perm")
                        p[i], p[j] = p[j], p[i]
                    sets.append(p[:1 + c.choose(n, "size")])
                    if c.flip(1, 2, "sorted"):
                        sets[-1].sort()
            if how == "select" and lvl == 0 and not ds["torch"]:
                sets = sets[:1]
            if how != "select" and lvl and not ds["torch"] and len(steps[0][1]) == 1:
                how = "select"
                sets = [sorted(s) for s in sets]
            steps.append((how, sets))
            n = sum(len(s) for s in sets)
        what = f"graph input {ds}, {steps}"
        sim.trace.append(what)
        sim.note(what)
        res, kept = self.val(sim.run_one(sim.spawn("cut", op_slices, ds, steps)), "cut")
        if not kept:
            raise Violation("input-modified", what)
        X = graph_input(dict(ds, torch=False))
        w = X.get("edge_weight")
        g = (X["x"], X["tag"], [(int(a), int(b), None if w is None else float(w[j])) for j, (a, b) in enumerate(X["edge_index"].T)])
        for (how, sets), parts in zip(steps, res):
            want = [cut_graph(g, idx) for idx in sets]
            off, es = 0, []
            for x, _, e in want:
                es += [(a + off, b + off, v) for a, b, v in e]
                off += len(x)
            one = (np.concatenate([x for x, _, _ in want]), np.concatenate([t for _, t, _ in want]), es)
            for gt, wt in zip(parts, want + [one]):
                x, tag = values(gt["x"]), values(gt["tag"])
                ei = values(gt["edge_index"])
                wv = values(gt.get("edge_weight"))
                if not np.allclose(x, wt[0]) or not np.array_equal(tag, wt[1]):
                    raise Violation("wrong-rows", f"{what}: {how} gives rows {tag.tolist()} instead of {wt[1].tolist()}")
                if wv is not None and len(wv) != ei.shape[1]:
                    raise Violation("wrong-graph", f"{what}: {how} gives {ei.shape[1]} edges with {len(wv)} weights")
                e = sorted((int(a), int(b), 0 if wv is None else float(wv[j])) for j, (a, b) in enumerate(ei.T))
                if e != sorted((a, b, v or 0) for a, b, v in wt[2]):
                    raise Violation("wrong-graph", f"{what}: {how} gives edges {e[:6]} instead of {sorted((a, b, v or 0) for a, b, v in wt[2])[:6]}")
                if gt.get("note") != "kept":
                    raise Violation("wrong-graph", f"{what}: the rest of the input is lost")
            g = one
        return {"nontrivial": True, "kind": "graph input", "probes": probes, "key": what[:2000]}


# ----------------------------------------------------------------------------------------- runs that must finish
def op_complete(rt, where, fname, before):
    """One run after others in the same process and caches, with what its split and graph are."""
    from bench.orchestrators import graph as go
    from bench.orchestrators import sampling as so

    for f in before:
        one_run(rt, where, f)
    got = {}
    sr, gr = so.run, go.build

    def samp(ds, *x, **k):
        got["sampling"], got["data"] = sr(ds, *x, **k), ds
        return got["sampling"]

    def gra(*x, **k):
        got["graph"] = gr(*x, **k)
        return got["graph"]

    so.run, go.build = samp, gra
    try:
        out = one_run(rt, where, fname)
    finally:
        so.run, go.build = sr, gr
    facts = {}
    if "sampling" in got:
        smp, ds = got["sampling"], got["data"]
        y = np.asarray(arr(ds.train.y))
        il = np.asarray(smp.indices["train_labeled"], dtype=np.int64)
        facts = {"labeled": len(il), "unlabeled": len(smp.indices["train_unlabeled"]), "classes": len(np.unique(y[il])),
                 "counts": min(np.unique(y[il], return_counts=True)[1].tolist() or [0]), "val": len(smp.indices["val"]), "test": len(smp.indices["test"])}
        if got.get("graph") is not None:
            g = got["graph"][0] if isinstance(got["graph"], tuple) else got["graph"]
            n = int(g.n_nodes)
            w = np.ones(g.edge_index.shape[1]) if g.edge_weight is None else arr(g.edge_weight)
            e = [(int(a), int(b)) for (a, b), v in zip(arr(g.edge_index).T, w) if a != b and v > 0]
            at = list(range(n))

            def top(i):
                while at[i] != i:
                    at[i] = at[at[i]]
                    i = at[i]
                return i

            for a, b in e:
                at[top(a)] = top(b)
            seen = {v for ab in e for v in ab}
            out_ = {a for a, _ in e}
            in_ = {b for _, b in e}
            facts["isolated"] = n - len(seen & out_ & in_)
            lab = {top(int(i)) for i in il if i < n}
            facts["unreached"] = sum(top(i) not in lab for i in range(n))
    return out[:4], facts


def excuse(cfg, text, facts):
    """A reason, recomputed from the split and graph, why this configuration may fail."""
    m, p = cfg["method"]["id"], cfg["method"]["params"]
    if not facts:
        return None
    if facts["classes"] < cfg["dataset"]["options"]["n_classes"]:
        return "few-classes"
    if not facts["unlabeled"]:
        return "no-unlabeled"
    if m in ("dynamic_label_propagation", "lazy_random_walk") and facts.get("isolated"):
        return "isolated"
    if m == "laplace_learning" and (facts.get("unreached") or facts.get("isolated")):
        return "unreached"
    if (p.get("classifier_id") == "knn" or cfg.get("search") and "knn" in cfg["search"]["space"].get("method", {}).get("params", {}).get("classifier_id", [])) and facts["labeled"] < 10:
        return "few-neighbours"
    if m == "tri_training" and ("one class" in text or "at least 2 classes" in text):
        return "one-class-bootstrap"
    return None


class B08(BenchScenario):
    prop = "B08"
    quick_runs = 1300
    thorough_runs = 40000
    rule = ("one experiment over all 47 methods with generated method, preprocessing, graph, view, augmentation, split and search parameters, alone or after "
            "other experiments in the same process and caches; unless the split or the graph lacks what the method documents it needs, which the harness "
            "recomputes, the run must end successfully and report every metric; non-trivial: such a run")
    must_reach = ("inductive", "transductive", "search", "limits", "after-others", "views", "augmentation", "graph")

    def val(self, p, what):
        if p.state == "crashed" or p.result is None:
            raise HarnessError(f"{what}: process ended")
        if p.result[0] != "ok":
            raise Violation("process-died", f"{what}: {p.result}")
        return p.result[1]

    def gen(self, c, name="exp"):
        cfg = gen_cfg(c, name, light=None)
        p, mid = cfg["method"]["params"], cfg["method"]["id"]
        if mid == "adsh" and not p.get("p_cutoff", 1):
            p["p_cutoff"] = 0.1
        p.pop("mixup_manifold", None)
        if c.flip(1, 2, "bold"):
            n = p.get("patience")
            vary(c, mid, p, (1, 2))
            if n is None:
                p.pop("patience", None)
            p.pop("mixup_manifold", None)
            if mid == "adsh" and not p.get("p_cutoff", 1):
                p["p_cutoff"] = 0.1
        if p.get("min_queue_fill", 0) > p.get("queue_size", 2560):
            p["min_queue_fill"] = 2
        s = cfg.get("search")
        if s:
            ps = s["space"]["method"]["params"]
            if "classifier_id" in ps:  # other classifiers take other parameters and backends
                del ps["classifier_id"]
                if any(v["id"] == "core.to_torch" for v in cfg["preprocess"]["plan"]["steps"]):
                    ps["classifier_backend"] = ["torch"]
                else:
                    p.update(classifier_id="knn", classifier_backend="numpy", classifier_params={})
                    ps["classifier_backend"] = ["numpy", "sklearn"]
            if mid == "adsh":
                ps.pop("p_cutoff", None)
        return cfg

    def run(self, sim):
        c = sim.c
        probes = {}
        cfg = self.gen(c)
        ev = cfg["evaluation"]
        for k in ("search", "limits", "views", "augmentation", "graph"):
            if cfg.get(k):
                probes[k] = 1
        write_cfg(sim, "w", "c.yaml", cfg)
        before = []
        for i in range(c.weighted([3, 1, 1], "before")):
            o = self.gen(c, f"other{i}")
            write_cfg(sim, "w", f"o{i}.yaml", o)
            before.append(f"o{i}.yaml")
            probes["after-others"] = 1
        what = brief(cfg) + (f" after {len(before)} others" if before else "")
        out, facts = self.val(sim.run_one(sim.spawn("run", op_complete, "w", "c.yaml", before)), "run")
        runs = [r for r in outputs(sim, "w")[0] if (r.owner or "").endswith("c.yaml") or (r.config or {}).get("run", {}).get("name") == "exp"]
        sim.trace.append(f"experiment: {what} -> {out[:3]} {facts}")
        sim.note(repr(facts))
        probes[cfg["method"]["kind"]] = 1
        if out[:2] != ("rc", 0):
            err = next((r.files["error.txt"].decode().strip().splitlines()[-1][:300] for r in runs if "error.txt" in r.files), out[1:4])
            why = excuse(cfg, str(err), facts)
            if why is None and "ViewsValidationError" in str(err):
                why = "view-plan"
            if why is None:
                raise Violation("valid-run-fails", f"{what}: {facts}: {err}")
            probes["excused-" + why] = 1
            return {"nontrivial": False, "kind": "excused", "probes": probes, "key": key(cfg)[:2000]}
        if len(runs) != 1 or runs[0].bad or runs[0].status() != "success":
            raise Violation("no-record", f"{what}: succeeded with {[(r.rel, r.bad, r.status()) for r in runs]}")
        got = runs[0].json["metrics"]
        for s in ev["report_splits"]:
            for m in ev["metrics"]:
                x = (got.get(s) or {}).get(m)
                n = facts.get(s)
                if x is None or n and (x == "nan" or not 0.0 <= x <= 1.0):
                    raise Violation("metric-missing", f"{what}: {m} of {s} ({n} rows) is {x}")
        if runs[0].trials is not None:
            bad = [t for t in runs[0].trials.splitlines() if '"failed"' in t or '"error": "' in t]
            if bad:
                raise Violation("valid-run-fails", f"{what}: a trial failed: {bad[0][:400]}")
        return {"nontrivial": True, "kind": cfg["method"]["id"], "probes": probes, "key": key(cfg)[:2000]}


SCENARIOS = {"A01": A01(), "B07": B07(), "B08": B08()}
