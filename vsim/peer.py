"""A second interpreter with another string-hash seed: a process whose set and dict orders differ.

Functions that must give the same result in every process are also evaluated there. Each request runs in a
forked child of the peer, so one request never sees another's state.
"""

from __future__ import annotations

import importlib
import os
import pickle
import random
import struct
import subprocess
import sys

HASHSEED = "4242"


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return None
        b += x
    return b


def _get(fd):
    h = _read(fd, 4)
    if h is None:
        return None
    b = _read(fd, struct.unpack("<I", h)[0])
    return None if b is None else pickle.loads(b)


def _put(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class RT:
    """What an operation gets instead of the simulator's runtime."""

    def __init__(self, root):
        self.root = root
        self.events = []


def main():
    rfd, wfd = 3, 4
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    mod, prop = sys.argv[3], sys.argv[4]
    from vsim.runner import no_stale_bytecode

    no_stale_bytecode()
    m = importlib.import_module(mod)
    m.SCENARIOS[prop].preload()
    while True:
        req = _get(rfd)
        if req is None:
            os._exit(0)
        fn, args, root, salt = req
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            try:
                random.seed(salt)
                np = sys.modules.get("numpy")
                if np is not None:
                    np.random.seed(random.getrandbits(32))
                torch = sys.modules.get("torch")
                if torch is not None:
                    torch.manual_seed(random.getrandbits(32))
                if root:
                    os.chdir(root)
                out = ("ok", getattr(m, fn)(RT(root), *args))
            except BaseException as e:
                from vsim.core import tb_tail

                out = ("raise", (type(e).__name__, str(e)[:500], tb_tail(e)))
            _put(b, out)
            os._exit(0)
        os.close(b)
        out = _get(a)
        os.close(a)
        os.waitpid(pid, 0)
        _put(wfd, out if out is not None else ("raise", ("PeerDied", "", "")))


class Peer:
    def __init__(self, scenario):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=HASHSEED)
        dn = open(os.devnull, "r+b")
        err = None if os.environ.get("VSIM_DEBUG") else dn
        self.p = subprocess.Popen(
            [sys.executable, "-B", "-c", "from vsim.peer import main; main()", str(r1), str(w2), type(scenario).__module__, scenario.prop],
            env=env, pass_fds=(r1, w2), stdin=dn, stdout=dn, stderr=err)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def call(self, fn, *args, root=None, salt=0):
        """What fn(rt, *args) of the scenario's module returns in the other interpreter."""
        _put(self.w, (fn.__name__, args, root, salt))
        out = _get(self.r)
        if out is None:
            from vsim.core import HarnessError

            raise HarnessError("the second interpreter ended")
        return out
