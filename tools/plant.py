"""Development helper: turn a planted change into /verif/seeded/<id>/ and confirm it.

plant(id, prop, edits, needs, breaks, demo): edits = [(file, old, new)]; demo = Python source that raises/exits non-zero if
the property is broken (it gets open_(files, entry) and xw).
"""
import json, os, shutil, subprocess, sys

REPO, SEEDED, LIB = f"/tmp/plant{os.getpid()}/repo", "/verif/seeded", "/verif/lib"
BASE = "f5d1f74579bfedde18d4fc04d82636b2de5e936a"
PRELUDE = '''import os, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), here]
work = tempfile.mkdtemp(prefix="demo")
os.environ["HOME"] = os.path.join(work, "home")
os.makedirs(os.environ["HOME"])
import atexit
atexit.register(shutil.rmtree, work, True)
import xw
from brel import Filing
_n = [0]


def open_(files, entry):
    _n[0] += 1
    d = os.path.join(work, "f%d" % _n[0])
    for rel, text in files.items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    return Filing.open(os.path.join(d, entry) if entry else d)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def plant(id, prop, edits, needs, breaks, demo, run_check=True):
    shutil.rmtree(os.path.dirname(REPO), ignore_errors=True)
    os.makedirs(os.path.dirname(REPO))
    sh(f"cp -a /repo {REPO}; git -C {REPO} checkout -- .")
    d = os.path.join(SEEDED, id)
    print("==", id, prop)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        patch = sh(f"git -C {REPO} diff").stdout
        own = 0
        for f, _, _ in edits:  # removed lines must be original ones
            blame = sh(["git", "-C", REPO, "blame", "-l", "-s", "HEAD", "--", f]).stdout.split("\n")
            diff = sh(["git", "-C", REPO, "diff", "-U0", "--", f]).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for ln in range(a, a + n):
                    c = blame[ln - 1].split()[0].lstrip("^")
                    if not BASE.startswith(c[:39]):
                        own += 1
                        print("   !! line of my own commit:", f, ln, blame[ln - 1][41:])
        t = sh(f"cd {REPO} && HOME={os.path.dirname(REPO)} PYTHONPATH={REPO} PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest tests -q "
               "-p no:cacheprovider --ignore=tests/end_to_end_tests --ignore=tests/core_tests --ignore=tests/utils_tests/test_edgar.py "
               "--ignore=tests/utils_tests/test_print_facts.py")
        missing = "" if t.returncode == 0 else t.stdout[-300:]
        print("   tests:", "ok" if not missing else f"BROKEN {missing}")
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w", encoding="utf-8").write(patch)
        open(f"{d}/demo.py", "w", encoding="utf-8").write(PRELUDE + demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy(f"{LIB}/xw.py", f"{d}/xw.py")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        with_ = sh(["bash", f"{d}/demo.sh"], cwd=REPO)
        print("   demo with the change:", with_.returncode, (with_.stderr.strip().split("\n") or [""])[-1][:160])
        if run_check and os.path.exists(f"/verif/checks/{prop}.py"):
            c = sh(f"cd /verif && BREL_REPO={REPO} VERIF_SEED=1 /opt/venv/bin/python run_check.py {prop} --tier quick")
            v = [l for l in c.stdout.split("\n") if "VIOLATION" in l]
            print("   check:", c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-300:])
    finally:
        sh(f"git -C {REPO} checkout -- .")
    w = sh(["bash", f"{d}/demo.sh"], cwd=REPO)
    print("   demo without:", w.returncode, w.stderr[-300:])
    shutil.rmtree(os.path.dirname(REPO), ignore_errors=True)
    return d
