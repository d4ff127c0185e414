"""Coordinator side: choices, simulated processes, scheduling, faults."""

from __future__ import annotations

import gc
import hashlib
import os
import random
import select
import shutil
import signal
import socket
import sys
import traceback
from collections import Counter

from . import seam


class HarnessError(Exception):
    """Something is wrong with the simulator or the sandbox: never a verdict."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Chooser:
    """The only source of decisions. Replays a recorded list, else draws from one seeded PRNG.

    Value 0 is always the simplest decision (no fault, no switch, smallest input).
    """

    def __init__(self, seed=None, replay=None, rank=0):
        self.rng = random.Random(seed) if replay is None else None
        self.rank = rank
        self.replay = replay
        self.i = 0
        self.rec = []
        self.labels = []

    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.i] % n if self.i < len(self.replay) else 0
        self.i += 1
        self.rec.append(v)
        self.labels.append(label)
        return v

    def weighted(self, weights, label=""):
        """Index drawn with the given integer weights (recorded as an index)."""
        n = len(weights)
        if self.replay is None:
            t = self.rng.randrange(sum(weights))
            v = 0
            while t >= weights[v]:
                t -= weights[v]
                v += 1
        else:
            v = self.replay[self.i] % n if self.i < len(self.replay) else 0
        self.i += 1
        self.rec.append(v)
        self.labels.append(label)
        return v

    def flip(self, num, den, label=""):
        """True with probability num/den; recorded as 0/1."""
        if self.replay is None:
            v = 1 if self.rng.randrange(den) < num else 0
        else:
            v = self.replay[self.i] % 2 if self.i < len(self.replay) else 0
        self.i += 1
        self.rec.append(v)
        self.labels.append(label)
        return bool(v)

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def turn(self, n, label=""):
        """A choice all runs together make equally often: by the number of the run."""
        if self.replay is None:
            v = self.rank % n
        else:
            v = self.replay[self.i] % n if self.i < len(self.replay) else 0
        self.i += 1
        self.rec.append(v)
        self.labels.append(label)
        return v


# step kinds the scheduler can run up to
UNTIL = (("write",), ("openr",), ("openw",), ("remove", "rmdir"), ("rename",), ("read",), ("mkdir", "stat"),
         ("sql.exec", "sql.commit", "lock", "ext"))


class Proc:
    def __init__(self, name, vpid):
        self.name = name
        self.vpid = vpid
        self.os_pid = None
        self.sock = None
        self.state = "ready"  # ready | point | blocked | sleeping | done | crashed
        self.wake = 0.0
        self.result = None
        self.faulted = 0
        self.pending = None
        self.steps = 0
        self.skew = 0.0

    @property
    def alive(self):
        return self.state not in ("done", "crashed")


SLOTS = ("steps", "events")


class Sim:
    """One simulated execution."""

    def __init__(self, chooser, workdir, *, step_limit=60000):
        self.c = chooser
        self.work = workdir
        self.root = os.path.join(workdir, "data")
        self.home = os.path.join(workdir, "home")
        self.outside = os.path.join(workdir, "outside")
        for d in (self.root, self.home, self.outside):
            os.makedirs(d, exist_ok=True)
        self.now = 0.0
        self.nproc = 0
        self.log = []  # (proc, event)
        self.trace = []  # human readable decisions
        self.fired = Counter()
        self.hits = []  # (fault, path) of every injected fault
        self.step_limit = step_limit
        self.entropy = self.c.choose(1 << 16, "entropy")
        self.points = 0
        self.switches = 0
        self.procs = []
        self.escapes = []
        self.outside_reads = []
        self.real_timeout = 120.0
        self.env = {}

    # -------------------------------------------------------------- processes
    def spawn(self, name, fn, *args, skew=0.0, env=None):
        self.nproc += 1
        p = Proc(name, self.nproc)
        p.skew = skew
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            a.close()
            for q in self.procs:
                if q.sock is not None:
                    q.sock.close()
            self._child(b, p, fn, args, {**self.env, **(env or {})})
            os._exit(98)
        b.close()
        p.os_pid = pid
        p.sock = a
        self.procs.append(p)
        return p

    def _child(self, sock, p, fn, args, env):
        code = 97
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            gc.disable()
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VSIM_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            rt = seam.Runtime(
                sock, self.root, self.work, p.vpid, f"{self.entropy}:{p.vpid}", p.skew
            )
            rt.step_limit = self.step_limit
            os.environ["HOME"] = self.home
            os.environ["XDG_CACHE_HOME"] = os.path.join(self.home, "cache")
            os.environ["TMPDIR"] = os.path.join(self.home, "tmp")
            os.makedirs(os.environ["TMPDIR"], exist_ok=True)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            import tempfile

            tempfile.tempdir = os.environ["TMPDIR"]
            os.chdir(self.root)
            random.seed(f"{self.entropy}:{p.vpid}:ambient")
            np = sys.modules.get("numpy")
            if np is not None:
                np.random.seed(random.getrandbits(32))
            torch = sys.modules.get("torch")
            if torch is not None:
                torch.manual_seed(random.getrandbits(32))
            seam.RT = rt
            rt.start()
            kind = "ok"
            try:
                val = fn(rt, *args)
            except seam.SimHang as e:
                kind, val = "hang", str(e)
            except BaseException as e:  # the child function itself decides what is caught
                kind, val = "raise", (type(e).__name__, str(e)[:500], tb_tail(e))
            rt.busy = True
            seam.send_msg(
                sock,
                (
                    ("exit", kind, val, rt.escapes, rt.outside_reads, rt.steps),
                    rt.events,
                    rt.now,
                    rt.fired,
                ),
            )
            code = 0
        except BaseException:
            try:
                seam.RT = None
                seam.send_msg(sock, (("harness", traceback.format_exc()), [], 0.0, []))
            except BaseException:
                pass
        os._exit(code)

    def _recv(self, p):
        r, _, _ = select.select([p.sock], [], [], self.real_timeout)
        if not r:
            self.kill_all()
            raise HarnessError(f"simulated process {p.name} made no step in {self.real_timeout}s")
        return seam.recv_msg(p.sock)

    def _reap(self, p):
        p.sock.close()
        _, st = os.waitpid(p.os_pid, 0)
        return os.waitstatus_to_exitcode(st)

    def kill_all(self):
        for p in self.procs:
            if p.alive and p.os_pid:
                try:
                    os.kill(p.os_pid, signal.SIGKILL)
                    os.waitpid(p.os_pid, 0)
                except OSError:
                    pass
                p.state = "crashed"
                p.sock.close()

    def grant(self, p, budget, mut, act=None, until=None):
        """Let p run until its budget of points is used, it blocks, or it ends."""
        seam.send_msg(
            p.sock,
            {"now": self.now, "budget": budget, "mut": mut, "act": act, "skew": p.skew,
             "until": until},
        )
        m = self._recv(p)
        if m is None:
            rc = self._reap(p)
            if rc == 137:
                p.state = "crashed"
                self.trace.append(f"{p.name} killed")
                return ("crashed",)
            raise HarnessError(f"simulated process {p.name} ended with status {rc}")
        msg, ev, now, fired = m
        self.now = max(self.now, now)
        for e in ev:
            self.log.append((p.name, e))
        self.points += len(ev)
        for f in fired:
            self.fired[f] += 1
            p.faulted += 1
            self.trace.append(f"{p.name}: fault {f} took effect")
        if msg[0] == "harness":
            self._reap(p)
            p.state = "done"
            self.kill_all()
            raise HarnessError(msg[1])
        if msg[0] == "exit":
            self._reap(p)
            p.state = "done"
            _, kind, val, esc, outr, steps = msg
            p.steps = steps
            self.escapes += [(p.name, *e) for e in esc]
            self.outside_reads += [(p.name, e) for e in outr]
            p.result = (kind, val)
            if kind == "hang":
                self.trace.append(f"{p.name}: {val}")
        elif msg[0] == "point":
            p.state = "point"
            p.pending = msg[1:]
        elif msg[0] == "block":
            p.state = "blocked"
            p.pending = ("block", msg[1], None)
        elif msg[0] == "sleep":
            p.state = "sleeping"
            p.wake = self.now + max(0.0, msg[1])
            p.pending = ("sleep", str(msg[1]), None)
        return msg

    # -------------------------------------------------------------- schedules
    def run_one(self, p, *, faults=(), max_faults=0, hint=40, until=None):
        """Run one process to its end, with up to max_faults faults at chosen mutating steps
        (until: only at such steps)."""
        left = max_faults
        act = None
        while p.alive:
            if left > 0 and faults:
                k = self.c.choose(hint + 1, "fault-at")  # 0: no further fault
                if k == 0:
                    left = 0
                    budget, mut = -1, False
                else:
                    budget, mut = k, True
            else:
                budget, mut = -1, False
            m = self.grant(p, budget, mut and until is None, act, until if budget > 0 else None)
            act = None
            if p.state == "point":
                left -= 1
                act = self.fault(p, faults)
            elif p.state == "sleeping":
                self.now = max(self.now, p.wake)
            elif p.state == "blocked":
                self.now += 0.05
                p.waited = getattr(p, "waited", 0) + 1
                if p.waited > 4000:
                    self.kill_all()
                    p.result = ("hang", "blocked forever")
                    p.state = "done"
        return p

    def fault(self, p, faults):
        """Choose what happens at the point p stopped at."""
        kind, path, size = p.pending
        f = faults[self.c.choose(len(faults), "fault-kind")]
        self.hits.append((f, path))
        what = f"at {p.name} {kind} {path}" + (f" ({size} bytes)" if size is not None else "")
        if f == "crash":
            self.fired["crash"] += 1
            p.faulted += 1
            self.trace.append(f"crash {what}")
            return ("crash",)
        if f == "torn":
            fr = self.c.choose(16, "torn-at") / 16
            self.fired["crash_torn_write" if kind == "write" else "crash"] += 1
            p.faulted += 1
            self.trace.append(f"crash during write ({fr:.2f} written) {what}")
            return ("torn", fr)
        if f == "enospc":
            fr = self.c.choose(16, "short-at") / 16
            self.trace.append(f"disk full {what}")
            return ("short", fr)
        if f == "errno":
            e = self.c.choose(4, "errno")
            self.trace.append(f"I/O error #{e} {what}")
            return ("errno", e, False)
        if f == "interrupt":
            self.trace.append(f"KeyboardInterrupt {what}")
            return ("interrupt",)
        if f == "memory":
            self.trace.append(f"MemoryError {what}")
            return ("memory",)
        return None

    def run_many(self, procs, *, faults=(), max_faults=0, max_switch=8, hint=60, mut_only=False,
                 on_stop=None, stalls_left=0, fault_den=3):
        """Interleave processes: seeded preemptive scheduler with faults at the switch points."""
        left_f, left_s = max_faults, max_switch
        acts = {}
        stalls = 0
        cur = None
        while True:
            live = [p for p in procs if p.alive]
            if not live:
                return
            ready = [p for p in live if p.state in ("ready", "point")]
            wakers = [p for p in live if p.state == "sleeping" and p.wake <= self.now]
            ready += wakers
            # a blocked process may be retried at any time; simplest choice: only when none is ready
            blocked = [p for p in live if p.state == "blocked"]
            if not ready:
                sl = [p for p in live if p.state == "sleeping"]
                if sl:
                    nxt = min(sl, key=lambda p: p.wake)
                    self.now = max(self.now, nxt.wake if not blocked else min(nxt.wake, self.now + 0.05))
                    if nxt.wake <= self.now:
                        ready = [nxt]
                if not ready and blocked:
                    self.now += 0.05
                    stalls += 1
                    if stalls > 4000:
                        names = ",".join(p.name for p in live)
                        self.kill_all()
                        for p in live:
                            p.result = ("hang", "blocked forever")
                            p.state = "done"
                        self.trace.append(f"deadlock: {names}")
                        return
                    ready = blocked
                elif not ready:
                    continue
            if cur is not None and cur in ready and cur.alive:
                ready = [cur] + [p for p in ready if p is not cur]
            cand = ready
            if left_s > 0 and len(cand) > 1:
                p = cand[self.c.choose(len(cand), "who")]
                if cur is not None and p is not cur:
                    self.switches += 1
            else:
                p = cand[0]
            cur = p
            if (left_s > 0 and len(live) > 1) or left_f > 0:
                mode = self.c.choose(7, "len-mode")  # 0: run freely
                until = None
                meet = []
                if mode == 6:  # run into the file another process is about to touch
                    meet = sorted({q.pending[1] for q in live if q is not p and q.state == "point"
                                   and q.pending[1]})
                    if not meet:
                        mode = 4
                if mode == 0:
                    budget = -1
                    if left_s > 0:
                        left_s -= 1
                elif mode == 1:
                    budget = 1 + self.c.choose(hint, "len")
                elif mode == 2:
                    budget = 1 + self.c.choose(8, "len")
                elif mode == 3:
                    budget = 1 + self.c.choose(max(2, hint // 4), "len")
                elif mode == 6:
                    until = self.c.pick(meet, "meet")
                    budget = 1 + self.c.choose(6, "len")
                else:  # up to the n-th step of one kind
                    until = self.c.pick(UNTIL, "until")
                    budget = 1 + self.c.choose(hint // 8 if mode == 4 else 3, "len")
            else:
                budget = -1
                until = None
            mut = mut_only and bool(budget > 0)
            act = acts.pop(p.name, None)
            self.trace.append(f"run {p.name}" + (f" for {budget} {until if isinstance(until, str) else '/'.join(until or ())} steps" if budget > 0 else ""))
            was = p.state
            self.grant(p, budget, mut, act, until)
            if p.state != "blocked" or was != "blocked":
                stalls = 0
            if on_stop:
                on_stop(p)
            if p.state == "point":
                if left_s > 0:
                    left_s -= 1
                self.trace.append(f"  {p.name} stopped before {p.pending[0]} {p.pending[1]}")
                if stalls_left > 0 and self.c.flip(1, 3, "stall?"):
                    stalls_left -= 1
                    if self.c.flip(1, 2, "jump?"):
                        p.skew += self.c.pick([3600.0, -3600.0, 90000.0, -86400.0 * 400, 5.0, -0.5], "jump")
                        self.fired["clock_jump"] += 1
                        self.trace.append(f"  clock of {p.name} jumps, now off by {p.skew}s")
                    else:
                        dt = self.c.pick([6.0, 0.5, 120.0, 4000.0, 90000.0], "stall")
                        self.now += dt
                        self.fired["stall"] += 1
                        self.trace.append(f"  {p.name} stalls, {dt}s pass")
                        if len([q for q in live if q.alive]) > 1 and left_s >= 0:
                            cur = None
                if left_f > 0 and faults and self.c.flip(1, fault_den, "fault?"):
                    left_f -= 1
                    a = self.fault(p, faults)
                    if a:
                        acts[p.name] = a

    def advance(self, p, n, until):
        """Run p alone to just before its n-th step of the given kinds (or of one path)."""
        while p.state in ("ready", "point") and p.alive:
            self.grant(p, n, False, None, until)
            if p.state == "point":
                self.trace.append(f"run {p.name} to step {n} of {until}: before {p.pending[0]} {p.pending[1]}")
            return p

    def close(self):
        self.kill_all()
        shutil.rmtree(self.work, ignore_errors=True)

    def note(self, what):
        """Part of what this execution was (a script of calls), for its digest."""
        self.log.append(("note", what))

    def hit(self, what, where=""):
        """A fault that was not placed at a file operation happened."""
        self.fired[what] += 1
        self.hits.append((what, where))

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()


def tb_tail(e, n=4):
    try:
        fr = traceback.extract_tb(e.__traceback__)[-n:]
        return " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(fr))
    except Exception:
        return ""
