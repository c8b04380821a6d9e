"""python -m tfmon.run <ID> [--tier quick|thorough] [--seed N]   |   python -m tfmon.run --replay FILE"""
import os
import sys
import tempfile
import shutil


def _env():
    """Re-exec with a pinned environment (threads, hash seed, headless private matplotlib)."""
    want = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
                PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    if os.environ.get("TFMON_READY") != "1":
        env = dict(os.environ, **want)
        env["TFMON_READY"] = "1"
        env.pop("PYTHONOPTIMIZE", None)
        env.pop("PYTHONWARNINGS", None)
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.pathsep + os.environ.get("TFMON_REPO", "/repo")
        os.execve(sys.executable, [sys.executable, "-B", "-W", "ignore", "-m", "tfmon.run"] + sys.argv[1:], env)


def _main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    pid = replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            pid = a
    tmp = tempfile.mkdtemp(prefix="tfmon-")
    os.environ["MPLCONFIGDIR"] = tmp
    os.environ["TFMON_SCRATCH"] = tmp
    try:
        import tftb
        root = os.path.realpath(os.path.dirname(os.path.dirname(tftb.__file__)))
        want = os.path.realpath(os.environ.get("TFMON_REPO", "/repo"))
        if root != want:
            print("error: tftb imported from %s, not %s" % (root, want))
            return 2
        from tfmon import core
        if replay:
            import json
            d = json.load(open(replay))
            rc = 0
            for w in d["witnesses"]:
                _, _, _, _, viol, errs, _ = core.explore(d["property"], d["tier"], d["seed"], only=[w["case"]])
                for v in viol:
                    print("VIOLATION property=%s replay=%s  %s: %s" % (d["property"], replay, v[2], v[3]))
                    rc = 1
                if not viol:
                    print("holds now:", w["case"])
            return rc
        return core.main(pid, tier, int(seed))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    _env()
    sys.exit(_main())
