"""Canonical digests of values produced by the code under test (inside simulated processes)."""

from __future__ import annotations

import hashlib
import math
from collections.abc import Mapping
from dataclasses import fields, is_dataclass
from pathlib import PurePath

import numpy as np


def canon(x, depth=0):
    """A nested, hashable, printable description of x, exact in values, dtypes and shapes."""
    if depth > 40:
        return "<deep>"
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return ("np", "bool", bool(x))
    if isinstance(x, np.generic):
        return ("np", str(x.dtype), _num(x.item()))
    if isinstance(x, (int, float)):
        return _num(x)
    if isinstance(x, bytes):
        return ("b", x.hex())
    if isinstance(x, PurePath):
        return ("path", str(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, tuple(canon(v, depth + 1) for v in x.ravel().tolist()))
        a = np.ascontiguousarray(x)
        if a.size <= 24:
            return ("arr", str(a.dtype), a.shape, tuple(_num(v) for v in a.ravel().tolist())
                    if a.dtype.kind in "fiub" else a.tobytes().hex())
        return ("arr", str(a.dtype), a.shape, hashlib.sha256(a.tobytes()).hexdigest()[:24])
    tn = type(x).__module__ + "." + type(x).__name__
    if tn.startswith("torch.") and hasattr(x, "detach"):
        if x.is_sparse:
            x = x.coalesce()
            return ("tsparse", canon(x.indices(), depth + 1), canon(x.values(), depth + 1), tuple(x.shape))
        return ("torch", str(x.dtype), canon(x.detach().cpu().numpy(), depth + 1))
    if tn.startswith("scipy.sparse"):
        c = x.tocoo()
        order = np.lexsort((c.col, c.row))
        return ("sparse", str(c.dtype), c.shape, canon(c.row[order].astype(np.int64)),
                canon(c.col[order].astype(np.int64)), canon(c.data[order]))
    if isinstance(x, Mapping):
        items = [(canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()]
        return ("map", tuple(sorted(items, key=lambda kv: repr(kv[0]))))
    if isinstance(x, tuple):
        return ("tup", tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, list):
        return ("list", tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v, depth + 1) for v in x), key=repr)))
    if is_dataclass(x):
        return ("dc", type(x).__name__,
                tuple((f.name, canon(getattr(x, f.name), depth + 1)) for f in fields(x)))
    return ("obj", tn, repr(x)[:200] if "0x" not in repr(x) else "")


def _num(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if math.isnan(v):
            return "nan"
        return ("f", v.hex())
    return v


def digest(x):
    return hashlib.sha256(repr(canon(x)).encode()).hexdigest()[:20]


def diff(a, b, path="", out=None, limit=4):
    """Readable differences of two canonical values."""
    if out is None:
        out = []
    if len(out) >= limit or a == b:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and b:
        lab = ""
        if isinstance(a[0], str) and a[0] in ("map", "dc", "list", "tup", "oarr"):
            lab = a[0]
        for i, (u, v) in enumerate(zip(a, b)):
            if u != v:
                name = f"{path}/{i}"
                if isinstance(u, tuple) and u and isinstance(u[0], str) and isinstance(v, tuple) and v and u[0] == v[0]:
                    name = f"{path}/{u[0]}"
                diff(u, v, name, out, limit)
        return out
    out.append(f"{path or '.'}: {repr(a)[:160]} != {repr(b)[:160]}")
    return out
