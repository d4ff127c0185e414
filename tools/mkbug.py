"""Create and confirm planted bugs (run by hand; no check reads seeded/).

  mkbug.bug(id, prop, edits=[(file, old, new), ...], needs, breaks, demo)   writes seeded/<id>/
  python3 tools/mkbug.py confirm ID [--no-tests] [--check PROP]...          scratch copy: demo, tests, check
"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

V = Path(__file__).resolve().parents[1]
SH = '''#!/bin/sh
# cwd: the repository
PYTHONPATH="$PWD/src:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= \\
OMP_NUM_THREADS=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def bug(id, prop, edits, needs, breaks, demo):
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    w = Path(tempfile.mkdtemp(prefix="mkbug-", dir="/tmp"))
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD src bench | tar -x -C {w}", shell=True, check=True)
        subprocess.run(f"cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x",
                       shell=True, check=True)
        for f, old, new in edits:
            p = w / f
            s = p.read_text()
            assert s.count(old) == 1, (f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", str(w), "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text(SH)
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")


def confirm(id, tests=True, checks=None, seeds=("1",)):
    d = V / "seeded" / id
    meta = json.loads((d / "meta.json").read_text())
    w = Path(f"/tmp/bw-{id}")
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
    out = {"id": id, "property": meta["property"]}
    dd = Path(tempfile.mkdtemp(prefix="bugdemo-", dir="/tmp"))
    try:
        for f in d.iterdir():
            if f.name.startswith("demo"):
                shutil.copy(f, dd)
        env = {"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "HOME": "/root", "LANG": "C.UTF-8"}
        r = subprocess.run([str(dd / "demo.sh")], cwd=w, env=env, capture_output=True, text=True, timeout=300)
        out["demo_clean"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-3000:])
        subprocess.run(["git", "-C", str(w), "apply", str(d / "patch.diff")], check=True)
        r = subprocess.run([str(dd / "demo.sh")], cwd=w, env=env, capture_output=True, text=True, timeout=300)
        out["demo_bug"] = r.returncode
        out["demo_says"] = (r.stderr or r.stdout).strip().splitlines()[-1:]
        if tests:
            s = Path("/opt/vp/test.sh").read_text().replace("/repo", str(w)).replace(
                "export PYTHONHASHSEED=0", f"export PYTHONPATH={w}/src:{w} PYTHONHASHSEED=0")
            t = dd / "test.sh"
            t.write_text(s)
            r = subprocess.run(["bash", str(t), str(dd / "out.json")], capture_output=True, text=True)
            base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
            want = set(base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable"))
            o = json.loads((dd / "out.json").read_text())
            got = set(o if isinstance(o, list) else (o.get("passed") or [k for k, v in o.items() if v == "passed"]))
            out["tests_lost"] = len(want - got)
            out["lost"] = sorted(want - got)[:4]
        for p in checks or [meta["property"]]:
            for s in seeds:
                e = dict(os.environ, VERIF_REPO=str(w), VERIF_EVIDENCE=str(dd / "ev"), VERIF_REPLAYS=str(dd / "rp"), VERIF_SEED=s)
                r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "vsim", "check", p], cwd=V, env=e,
                                   capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("violation class")]
                out[f"check_{p}_{s}"] = (r.returncode, (v[0][:200] if v else (r.stdout + r.stderr)[-150:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(dd, ignore_errors=True)
    print(json.dumps(out, indent=1))
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "confirm":
        ids, tests, checks, i = [], True, [], 1
        while i < len(a):
            if a[i] == "--no-tests":
                tests = False
            elif a[i] == "--check":
                i += 1
                checks.append(a[i])
            else:
                ids.append(a[i])
            i += 1
        for x in ids:
            confirm(x, tests, checks or None)
