import argparse
import os
import sys


def reexec():
    want = {
        "PYTHONHASHSEED": os.environ.get("VSIM_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "HF_HUB_OFFLINE": "1",
        "HF_DATASETS_OFFLINE": "1",
        "TRANSFORMERS_OFFLINE": "1",
        "CUDA_VISIBLE_DEVICES": "",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "NUMEXPR_NUM_THREADS": "1",
        "KMP_INIT_AT_FORK": "FALSE",
    }
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    verif = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
    want["PYTHONPATH"] = f"{repo}/src:{repo}:{verif}"
    drop = [k for k in os.environ if k.startswith("MODSSC_")]
    if any(os.environ.get(k) != v for k, v in want.items()) or drop:
        env = {k: v for k, v in os.environ.items() if k not in drop}
        env.update(want)
        py = "/opt/venv/bin/python"
        os.execve(py, [py, "-B", "-m", "vsim", *sys.argv[1:]], env)


def main():
    reexec()
    ap = argparse.ArgumentParser(prog="vsim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("check")
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--runs", type=int)
    a.add_argument("--jobs", type=int)
    a.add_argument("-v", action="store_true")
    a = sub.add_parser("replay")
    a.add_argument("file")
    a = sub.add_parser("determinism")
    a.add_argument("prop")
    a.add_argument("--n", type=int, default=200)
    a.add_argument("--seed", type=int, default=1)
    ns = ap.parse_args()
    from vsim import runner

    if ns.cmd == "check":
        rc = runner.main_check(ns.prop, ns.tier, ns.seed, ns.jobs, ns.runs, ns.v)
    elif ns.cmd == "replay":
        rc = runner.main_replay(ns.file)
    else:
        rc = runner.main_determinism(ns.prop, ns.n, ns.seed)
    sys.stdout.flush()
    os._exit(rc)


main()
