"""Runs many seeded simulations of one property, shrinks and reports violations, writes evidence."""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()


def scratch_base():
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            try:
                st = os.statvfs(b)
                if st.f_bavail * st.f_frsize > 1 << 30:
                    return b
            except OSError:
                pass
    return tempfile.gettempdir()


def no_stale_bytecode():
    """Modules of the repository are always compiled from the current source."""
    import importlib._bootstrap_external as be

    orig = be.cache_from_source
    base = str(REPO) + "/"

    def cfs(path, *a, **k):
        if str(path).startswith(base):
            raise NotImplementedError
        return orig(path, *a, **k)

    be.cache_from_source = cfs


def load_scenario(prop):
    from vsim import scen

    mod = importlib.import_module(scen.TABLE[prop])
    return mod.SCENARIOS[prop]


class RunResult:
    __slots__ = ("i", "seed", "ok", "cls", "msg", "choices", "labels", "trace", "digest", "info",
                 "fired", "points", "now", "switches", "wall", "harness")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


def one_run(sc, seed=None, replay=None, workbase=None, i=0):
    from vsim.core import Chooser, HarnessError, Sim, Violation

    ch = Chooser(seed=seed, replay=replay, rank=i)
    work = os.path.join(workbase, "run")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t0 = time.time()
    sim = None
    r = RunResult(i=i, seed=seed, ok=True, info={})
    try:
        sim = Sim(ch, work)
        try:
            r.info = sc.run(sim) or {}
        except Violation as v:
            r.ok = False
            r.cls, r.msg = v.cls, v.msg
        except HarnessError as e:
            r.ok = None
            r.harness = str(e)
        except Exception:
            r.ok = None
            r.harness = traceback.format_exc()
        r.digest = sim.digest()
        r.trace = sim.trace
        r.fired = sim.fired
        r.points = sim.points
        r.now = sim.now
        r.switches = sim.switches
    finally:
        if sim is not None:
            sim.close()
        shutil.rmtree(work, ignore_errors=True)
    r.choices = ch.rec
    r.labels = ch.labels
    r.wall = time.time() - t0
    return r


def derive(seed, prop, i):
    return int.from_bytes(hashlib.sha256(f"{seed}:{prop}:{i}".encode()).digest()[:8], "big")


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def indices(fd):
    """Run numbers as the main process hands them out."""
    while True:
        b = os.read(fd, 4)
        if len(b) < 4:
            return
        yield struct.unpack("<I", b)[0]


def worker(sc, prop, vseed, idxs, wfd, base, known, deadline, slot=0):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    from vsim import seam

    sc.setup()
    seam.install()
    wb = os.path.join(base, f"w{slot:02d}")
    os.makedirs(wb, exist_ok=True)
    try:
        for i in idxs:
            if time.time() > deadline:
                break
            r = one_run(sc, seed=derive(vseed, prop, i), workbase=wb, i=i)
            if r.ok is True:
                r.choices = r.labels = None
                if i % 97:
                    r.trace = (r.trace or [])[:0]
            _send(wfd, r_dump(r))
            if r.ok is False and not is_known(known, prop, r.cls, r.msg):
                break
    finally:
        shutil.rmtree(wb, ignore_errors=True)


def r_dump(r):
    return {s: getattr(r, s) for s in r.__slots__}


def load_known():
    p = VERIF / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def is_known(known, prop, cls, msg):
    for k in known:
        if k.get("status") == "known" and k.get("property") == prop and k.get("class") == cls:
            if k.get("match") in (None, "") or k["match"] in (msg or ""):
                return k
    return None


def shrink(sc, r, base, cls, budget_s=40.0, max_runs=400):
    """Smaller choice lists that still give the same class of violation."""
    best = list(r["choices"])
    t0 = time.time()
    n = 0
    last = None

    def attempt(c):
        nonlocal n, best, last
        if n >= max_runs or time.time() - t0 > budget_s:
            return False
        n += 1
        q = one_run(sc, replay=c, workbase=base)
        if q.ok is False and q.cls == cls:
            k = list(q.choices)
            while k and k[-1] == 0:
                k.pop()
            if len(k) < len(best) or (len(k) == len(best) and sum(k) < sum(best)):
                best = k
                last = q
                return True
            if k == best:
                last = q
        return False

    attempt(best)
    prev = None
    while prev != best and n < max_runs and time.time() - t0 < budget_s:
        prev = list(best)
        # shorten
        for cut in (len(best) // 2, len(best) // 4, 4, 2, 1):
            while cut and cut < len(best) and attempt(best[:-cut]):
                pass
        size = max(1, len(best) // 2)
        while size >= 1:
            j = 0
            while j < len(best):
                if attempt(best[:j] + best[j + size :]):
                    continue
                if any(best[j : j + size]) and attempt(
                    best[:j] + [0] * len(best[j : j + size]) + best[j + size :]
                ):
                    pass
                j += size
            size //= 2
        for j in range(len(best)):
            if j < len(best) and best[j] > 1:
                for v in (1, best[j] // 2, best[j] - 1):
                    if v < best[j] and attempt(best[:j] + [v] + best[j + 1 :]):
                        break
    if last is None:
        last = one_run(sc, replay=best, workbase=base)
    return best, last, n


def main_check(prop, tier, vseed, jobs=None, runs=None, verbose=False):
    no_stale_bytecode()
    t0 = time.time()
    sc = load_scenario(prop)
    known = load_known()
    nruns = runs or (sc.quick_runs if tier == "quick" else sc.thorough_runs)
    cap = (sc.quick_cap if tier == "quick" else sc.thorough_cap)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix=f"vsim-{prop}-", dir=scratch_base())
    code = 2
    try:
        sc.preload()
        code = _check(sc, prop, tier, vseed, jobs, nruns, cap, base, known, t0, verbose)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def _check(sc, prop, tier, vseed, jobs, nruns, cap, base, known, t0, verbose):
    deadline = time.time() + cap
    fds = {}
    pids = []
    give = {}
    todo = iter(range(nruns))

    def hand_out(fd):
        i = next(todo, None)
        try:
            if i is None:
                if give.get(fd) is not None:
                    os.close(give[fd])
                    give[fd] = None
            else:
                os.write(give[fd], struct.pack("<I", i))
        except OSError:
            pass

    for w in range(jobs):
        rfd, wfd = os.pipe()
        crfd, cwfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(rfd)
                os.setpgid(0, 0)
                for f in (cwfd, *fds, *(g for g in give.values() if g is not None)):
                    os.close(f)
                worker(sc, prop, vseed, indices(crfd), wfd, base, known, deadline, w)
            except BaseException:
                traceback.print_exc()
                rc = 3
            os._exit(rc)
        os.close(wfd)
        os.close(crfd)
        fds[rfd] = b""
        give[rfd] = cwfd
        pids.append(pid)
        hand_out(rfd)
    res = []
    viol = None
    harness = None
    knownhit = {}
    open_fds = set(fds)
    try:
        while open_fds:
            rl, _, _ = select.select(list(open_fds), [], [], max(5.0, deadline + 300 - time.time()))
            if not rl:
                harness = "workers made no progress (wall timeout)"
                break
            stop = False
            for fd in rl:
                b = os.read(fd, 1 << 20)
                if not b:
                    open_fds.discard(fd)
                    continue
                fds[fd] += b
                while len(fds[fd]) >= 4:
                    n = struct.unpack("<I", fds[fd][:4])[0]
                    if len(fds[fd]) < 4 + n:
                        break
                    d = pickle.loads(fds[fd][4 : 4 + n])
                    fds[fd] = fds[fd][4 + n :]
                    hand_out(fd)
                    if d["ok"] is None:
                        harness = d["harness"]
                        if verbose:
                            print(d["harness"], file=sys.stderr)
                        stop = True
                    elif d["ok"] is False:
                        k = is_known(known, prop, d["cls"], d["msg"])
                        if k:
                            knownhit[k["id"]] = k
                            d["known"] = True
                            res.append(d)
                        else:
                            if viol is None or d["i"] < viol["i"]:
                                viol = d
                            res.append(d)
                            stop = True
                    else:
                        res.append(d)
            if stop:
                break
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        bad = 0
        for p in pids:
            try:
                _, st = os.waitpid(p, 0)
                if os.waitstatus_to_exitcode(st) == 3:
                    bad += 1
            except OSError:
                pass
        for f in (*fds, *(g for g in give.values() if g is not None)):
            os.close(f)
    if bad and not harness:
        harness = f"{bad} worker(s) failed"
    replay_path = None
    if viol is not None:
        replay_path = report(sc, prop, vseed, viol, base)
    wall = time.time() - t0
    write_evidence(sc, prop, tier, vseed, res, wall, 1 if viol else 0, knownhit, nruns, jobs)
    for k in known:
        # a listed finding is announced on every run; whether it was hit again is in the evidence
        if k.get("status") == "known" and k.get("property") == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol is not None:
        print(f"violation class: {viol['cls']}: {viol['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if harness:
        print(f"HARNESS ERROR ({prop}): {harness}", file=sys.stderr)
        return 2
    if len(res) < min(nruns, sc.min_runs):
        print(f"HARNESS ERROR ({prop}): only {len(res)} of {nruns} runs fit in {cap}s", file=sys.stderr)
        return 2
    miss = [p for p in sc.must_reach if not any((d["info"] or {}).get("probes", {}).get(p) for d in res)]
    if miss and len(res) >= nruns:
        print(f"note ({prop}): probes never reached in this run: {', '.join(miss)}")
    print(f"ok {prop}: {len(res)} simulated runs in {wall:.1f}s")
    return 0


def report(sc, prop, vseed, viol, base):
    """Minimise, write the replay file, and confirm it in a fresh process."""
    sc.setup()
    from vsim import seam

    seam.install()
    wb = os.path.join(base, "w90")
    os.makedirs(wb, exist_ok=True)
    out = Path(os.environ.get("VERIF_REPLAYS", VERIF / "evidence" / "replays"))
    out.mkdir(parents=True, exist_ok=True)
    full = out / f"{prop}-{viol['seed']}.full.json"
    mini = out / f"{prop}-{viol['seed']}.json"

    def dump(path, choices, q, n):
        path.write_text(json.dumps({
            "property": prop, "verif_seed": vseed, "run": viol["i"], "seed": viol["seed"],
            "class": viol["cls"], "message": q["msg"], "choices": choices, "trace": q["trace"],
            "event_digest": q["digest"], "shrink_runs": n,
        }, indent=1))

    dump(full, viol["choices"], viol, 0)
    try:
        best, last, n = shrink(sc, viol, wb, viol["cls"])
        if last is not None and last.ok is False and last.cls == viol["cls"]:
            dump(mini, best, r_dump(last), n)
            if confirm(mini):
                print(f"minimised {len(viol['choices'])} -> {len(best)} choices in {n} runs")
                for t in (last.trace or [])[:60]:
                    print("  ", t)
                viol["msg"] = last.msg
                return str(mini)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(wb, ignore_errors=True)
    if not confirm(full):
        print("warning: the replay file did not reproduce the violation in a fresh process")
    return str(full)


def confirm(path):
    r = subprocess.run([sys.executable, "-B", "-m", "vsim", "replay", str(path)],
                       cwd=str(VERIF), capture_output=True, text=True, timeout=300)
    return r.returncode == 1


def main_replay(path, verbose=True):
    no_stale_bytecode()
    d = json.loads(Path(path).read_text())
    prop = d["property"]
    sc = load_scenario(prop)
    base = tempfile.mkdtemp(prefix=f"vsim-{prop}-", dir=scratch_base())
    try:
        sc.preload()
        sc.setup()
        from vsim import seam

        seam.install()
        r = one_run(sc, replay=d["choices"], workbase=os.path.join(base, "w91"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if r.ok is None:
        print(r.harness, file=sys.stderr)
        return 2
    if verbose:
        for t in r.trace:
            print("  ", t)
    if r.ok is False:
        same = r.cls == d["class"] and r.digest == d["event_digest"]
        print(f"violation class: {r.cls}: {r.msg[:600]}")
        print(f"event log {'identical' if same else 'DIFFERS'}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1 if same else 3
    print("no violation on replay")
    return 0


def write_evidence(sc, prop, tier, vseed, res, wall, nviol, knownhit, planned, jobs):
    fired = Counter()
    probes = Counter()
    digs = set()
    pts = 0
    simt = 0.0
    sw = 0
    nt = 0
    kinds = Counter()
    faulted_runs = 0
    for d in res:
        for k, v in (d["fired"] or {}).items():
            fired[k] += v
        if d["fired"]:
            faulted_runs += 1
        info = d["info"] or {}
        for k, v in (info.get("probes") or {}).items():
            probes[k] += int(v)
        if info.get("kind"):
            kinds[info["kind"]] += 1
        pts += d["points"] or 0
        simt += d["now"] or 0.0
        sw += d["switches"] or 0
        if info.get("nontrivial", True):
            nt += 1
            digs.add((d["digest"], info.get("key")))
    samples = []
    for d in res:
        if d["trace"] and len(samples) < 3:
            samples.append({"run": d["i"], "seed": d["seed"], "info": {k: v for k, v in (d["info"] or {}).items() if k != "probes"},
                            "trace": d["trace"][:25]})
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len(digs),
        "rule": sc.rule,
        "samples": samples or [{"note": "no run kept its trace"}],
        "planned_runs": planned,
        "nontrivial_runs": nt,
        "simulated_runs_per_hour": round(len(res) / wall * 3600) if wall else 0,
        "seeds_per_hour": round(len(res) / wall * 3600) if wall else 0,
        "simulated_seconds": round(simt, 3),
        "interception_points": pts,
        "preemptive_switches": sw,
        "runs_with_faults": faulted_runs,
        "faults_injected": dict(fired.most_common()),
        "distinct_executions": len({d["digest"] for d in res}),
        "distinct_measure": "sha256 of the complete event log (process, step kind, path, size)",
        "run_kinds": dict(kinds.most_common()),
        "probes": dict(probes.most_common()),
        "components_real": sc.real,
        "components_stubbed": sc.stub,
        "known_findings_hit": sorted(knownhit),
        "worker_processes": jobs,
    }
    ev = {"property": prop, "tier": tier, "seed": int(vseed), "level": "exploration",
          "coverage": cov, "assumptions": sc.assumptions, "wall_s": round(wall, 2),
          "violations": nviol}
    d = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
    d.mkdir(parents=True, exist_ok=True)
    tmp = d / f".{prop}.tmp"
    tmp.write_text(json.dumps(ev, indent=1, default=str))
    tmp.replace(d / f"{prop}.json")


def main_determinism(prop, n, vseed):
    """Each seed twice, in different worker processes and orders; event logs must be identical."""
    no_stale_bytecode()
    sc = load_scenario(prop)
    base = tempfile.mkdtemp(prefix=f"vsim-{prop}-", dir=scratch_base())
    outs = []
    try:
        sc.preload()
        for jobs in (3, 8):
            fds, pids, got = {}, [], {}
            for w in range(jobs):
                rfd, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(rfd)
                        worker(sc, prop, vseed, range(w, n, jobs), wfd, base, [], time.time() + 3600, w)
                    finally:
                        os._exit(0)
                os.close(wfd)
                fds[rfd] = b""
                pids.append(pid)
            for fd in fds:
                with os.fdopen(fd, "rb") as f:
                    b = f.read()
                while b:
                    k = struct.unpack("<I", b[:4])[0]
                    d = pickle.loads(b[4 : 4 + k])
                    b = b[4 + k :]
                    got[d["i"]] = (d["digest"], d["ok"], d["cls"], repr(d["info"]))
            for p in pids:
                os.waitpid(p, 0)
            outs.append(got)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for i in sorted(outs[0])[:400]:
        if i in outs[1] and outs[0][i] != outs[1][i] and os.environ.get("VSIM_DEBUG"):
            print(i, outs[0][i], outs[1][i])
            break
    bad = [i for i in outs[0] if i in outs[1] and outs[0][i] != outs[1][i]]
    print(json.dumps({"property": prop, "seeds": len(outs[0]), "seeds2": len(outs[1]), "diverged": bad[:20],
                      "all": hashlib.sha256(repr(sorted(outs[0].items())).encode()).hexdigest()[:16]}))
    return 1 if bad else 0
