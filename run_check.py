"""Usage: run_check.py Cxx [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

sys.path.append(harness.HYPOTHESIS_PATH)  # after site-packages: only hypothesis and its pure deps come from there


def selftest():
    """Nothing needs building: brel is pure Python and is imported from /repo's working tree."""
    import subprocess

    sys.path[:0] = [harness.VERIF, harness.REPO]
    for m in ("lxml", "pandas", "hypothesis"):
        __import__(m)
    print("ok", sys.version.split()[0], subprocess.run(
        [harness.PYTHON, "-c", "import brel; print(brel.__file__)"], env={**os.environ, "PYTHONPATH": harness.REPO},
        capture_output=True, text=True, check=True).stdout.strip())
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--replay-child")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.prop is None:
        ap.error("which property?")
    if a.shard is not None:
        harness.worker_main(a.prop, a.shard, a.nshards, a.tier, a.seed, a.out)
        return 0
    if a.replay_child:
        msg = harness.replay_main(a.prop, a.replay_child)
        with open(a.out, "w") as f:
            json.dump({"message": msg}, f)
        return 0
    if a.replay:
        import shutil
        import tempfile

        base = tempfile.mkdtemp(prefix="brelverif_replay_")
        try:
            with open(a.replay) as f:
                rec = json.load(f)
            msg = harness._replay_in_child(a.prop, os.path.abspath(a.replay), base, 0, rec.get("hashseed") or 0)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if msg is None:
            print(f"{a.prop}: replay passes")
            return 0
        print(msg)
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    return harness.parent_main(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
