"""Runner shared by every check.

A check module (checks/Cxx.py) defines

    ID        property id
    RULE      the stated rule for a non-trivial case
    QUICK     number of generated cases in the quick tier (all shards together)
    THOROUGH  ... in the thorough tier
    strategy(tier) -> a Hypothesis strategy that yields JSON-serialisable cases
    check(case)    -> iterable of class labels; raises Violation if the property is broken
    nontrivial(case, labels) -> bool

The parent process starts SHARDS workers.  Each worker is a fresh interpreter with its own empty
HOME (brel caches every file it reads under ~/.brel), its own PYTHONHASHSEED and its own Hypothesis
seed, all derived from VERIF_SEED, so a run is a function of the code and of VERIF_SEED.

Outcomes: exit 0 (held), exit 1 + VIOLATION line, exit 2 (the harness itself failed).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BREL_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYPOTHESIS_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
CASE_CPU_SECONDS = 30
SHRINK_SECONDS = 60
MEMORY = 3 << 30  # of one worker (a case needs a few MB)


class Violation(Exception):
    """The code under test broke the property."""


class CaseTimeout(BaseException):
    pass


def expect(cond, msg, **details):
    if not cond:
        msg = msg() if callable(msg) else msg
        raise Violation(msg + ("".join(f"\n    {k} = {_short(v)}" for k, v in details.items())))


def expect_eq(got, want, msg):
    if got != want:
        raise Violation(f"{msg}\n    expected {_short(want)}\n    observed {_short(got)}")


def _short(v, n=3000):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "…"


@contextmanager
def under_test(what):
    """Code inside calls brel's public API in a way the property says must succeed."""
    try:
        yield
    except (Violation, CaseTimeout, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001 - any exception here is the code's misbehaviour
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/brel/" in f.filename), "")
        raise Violation(f"{what}: raised {type(e).__name__}: {_short(str(e), 600)} [{where}]") from None


# ---------------------------------------------------------------- worker side

def _on_alarm(signum, frame):
    raise CaseTimeout()


@contextmanager
def cpu_limit(seconds=CASE_CPU_SECONDS):
    """CPU time (not wall clock) so a loaded machine can not trip it."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


@contextmanager
def memory_limit():
    """At most MEMORY bytes more than the process has now; nothing where a lower limit is in force anyway."""
    before = None
    try:
        with open("/proc/self/statm") as f:
            wanted = int(f.read().split()[0]) * resource.getpagesize() + MEMORY
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        if min([x for x in (soft, hard) if x != resource.RLIM_INFINITY], default=wanted) >= wanted:
            resource.setrlimit(resource.RLIMIT_AS, (wanted, hard))
            before = soft, hard
    except (OSError, ValueError):
        pass
    try:
        yield before is not None
    finally:
        if before:
            resource.setrlimit(resource.RLIMIT_AS, before)


def run_case(mod, case):
    """Run one case; returns labels; raises Violation."""
    try:
        with memory_limit(), cpu_limit(getattr(mod, "CASE_CPU_SECONDS", CASE_CPU_SECONDS)):
            return set(mod.check(case) or ())
    except CaseTimeout as e:
        traceback.clear_frames(e.__traceback__)
        raise Violation(
            f"no result after {CASE_CPU_SECONDS} s of CPU time on a tiny input (does not terminate)"
        ) from None
    except MemoryError as e:
        traceback.clear_frames(e.__traceback__)
        raise Violation(f"a tiny input needs more than {MEMORY >> 30} GB of memory") from None


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, default=str)


def worker_main(prop, shard, nshards, tier, seed, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = importlib.import_module(f"checks.{prop}")
    total = mod.THOROUGH if tier == "thorough" else mod.QUICK
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(total * scale) // nshards)
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET_S", "2400" if tier == "thorough" else "300"))
    stats = {
        "evaluations": 0, "nontrivial": 0, "labels": {}, "digests": [], "samples": [],
        "violation": None, "truncated": False,
    }
    digests = set()
    state = {"best": None, "failing": False}

    class OutOfBudget(BaseException):
        pass

    strat = mod.strategy(tier)

    @hypothesis.seed(seed * 1009 + shard * 7919 + 13)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False, verbosity=hypothesis.Verbosity.quiet,
              phases=(Phase.generate, Phase.shrink))
    @given(strat)
    def test(case):
        if time.time() > deadline and not state["failing"]:
            # budget reached: stop exploring, never a violation
            stats["truncated"] = True
            raise OutOfBudget()
        if state["failing"] and time.time() > state["failing"] + SHRINK_SECONDS:
            raise OutOfBudget()
        try:
            labels = run_case(mod, case)
        except Violation as v:
            state["failing"] = state["failing"] or time.time()
            js = canonical(case)
            if state["best"] is None or len(js) < len(state["best"][1]):
                state["best"] = (case, js, str(v))
            raise
        if state["failing"]:
            return
        stats["evaluations"] += 1
        for label in labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if mod.nontrivial(case, labels):
            stats["nontrivial"] += 1
            d = hashlib.sha1(canonical(case).encode()).hexdigest()[:16]
            if d not in digests:
                digests.add(d)
                if len(stats["samples"]) < 3 and len(canonical(case)) < 20000:
                    stats["samples"].append({"case": case, "labels": sorted(labels)})

    try:
        test()
    except Violation:
        pass
    except OutOfBudget:
        pass
    except hypothesis.errors.Flaky:
        # the violation was seen, but did not come back on re-execution (hash order, for instance);
        # it is judged by re-running the recorded case below
        pass
    except BaseExceptionGroup as g:  # pragma: no cover
        if state["best"] is None:
            raise g
    if state["best"] is not None:
        case, _, msg = state["best"]
        stats["violation"] = {"case": case, "message": msg, "shard": shard,
                              "hashseed": os.environ.get("PYTHONHASHSEED")}
    stats["digests"] = sorted(digests)
    with open(out_path, "w") as f:
        json.dump(stats, f, default=str)


def replay_main(prop, path, out_path=None):
    mod = importlib.import_module(f"checks.{prop}")
    with open(path) as f:
        rec = json.load(f)
    case = rec["case"] if isinstance(rec, dict) and "case" in rec else rec
    for _ in range(int(rec.get("repeat", 1)) if isinstance(rec, dict) else 1):
        try:
            run_case(mod, case)
        except Violation as v:
            return str(v)
    return None


# ---------------------------------------------------------------- parent side

def _worker_env(scratch, idx):
    env = dict(os.environ)
    home = os.path.join(scratch, f"home{idx}")
    os.makedirs(home, exist_ok=True)
    os.makedirs(os.path.join(scratch, f"work{idx}"), exist_ok=True)
    env.update(
        HOME=home,
        VERIF_WORK=os.path.join(scratch, f"work{idx}"),
        PYTHONPATH=os.pathsep.join([VERIF, REPO]),
        PYTHONHASHSEED=str(idx),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONWARNINGS="ignore",
        LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, f"hyp{idx}"),
    )
    return env


def _spawn(args, scratch, idx, cwd, hashseed=None):
    env = _worker_env(scratch, idx)
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    log = open(os.path.join(scratch, f"log{idx}"), "wb")
    return subprocess.Popen(
        [PYTHON, "-W", "ignore", os.path.join(VERIF, "run_check.py"), *args],
        env=env, cwd=cwd, stdout=log, stderr=subprocess.STDOUT,
    )


def _log(scratch, idx):
    with open(os.path.join(scratch, f"log{idx}"), "rb") as f:
        return f.read().decode("utf-8", "replace")


def _replay_in_child(prop, path, scratch, idx, hashseed=0):
    out = os.path.join(scratch, f"replay{idx}.json")
    mod_cwd = _cwd_for(prop, scratch, idx)
    p = _spawn([prop, "--replay-child", path, "--out", out], scratch, idx, mod_cwd, hashseed)
    p.wait()
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError(f"replay child failed:\n{_log(scratch, idx)}")
    with open(out) as f:
        return json.load(f)["message"]


def _cwd_for(prop, scratch, idx):
    d = os.path.join(scratch, f"cwd{idx}")
    os.makedirs(d, exist_ok=True)
    return d


def known_findings(prop):
    """KNOWN-FINDING lines of /verif/known_findings.txt for this property -> [(what, case file)]."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return res
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("KNOWN-FINDING:"):
                continue
            rest = line[len("KNOWN-FINDING:"):].strip()
            fields = rest.split(" ", 2)
            p = fields[0].removeprefix("property=")
            if p != prop:
                continue
            res.append((fields[2], os.path.join(VERIF, fields[1].removeprefix("case="))))
    return res


def parent_main(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    base = tempfile.mkdtemp(prefix=f"brelverif_{prop}_")
    evidence_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    meta = _read_meta(prop)
    try:
        return _parent(prop, tier, seed, base, evidence_path, meta, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _read_meta(prop):
    """RULE and such without importing the module (it imports brel)."""
    import ast

    with open(os.path.join(VERIF, "checks", f"{prop}.py")) as f:
        tree = ast.parse(f.read())
    meta = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return meta


def _parent(prop, tier, seed, base, evidence_path, meta, t0):
    nshards = int(meta.get("SHARDS", SHARDS))
    procs = []
    outs = []
    for i in range(nshards):
        out = os.path.join(base, f"out{i}.json")
        outs.append(out)
        procs.append(_spawn(
            [prop, "--shard", str(i), "--nshards", str(nshards), "--tier", tier,
             "--seed", str(seed), "--out", out], base, i, _cwd_for(prop, base, i)))
    # once one shard reports a violation the others get a grace period
    first_violation_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        if first_violation_at is None:
            for p, o in zip(procs, outs):
                if p.poll() == 0 and os.path.exists(o):
                    with open(o) as f:
                        if json.load(f)["violation"]:
                            first_violation_at = time.time()
        elif time.time() - first_violation_at > 20:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    for p in procs:
        p.wait()
    results = []
    for i, (p, o) in enumerate(zip(procs, outs)):
        if p.returncode == 0 and os.path.exists(o):
            with open(o) as f:
                results.append(json.load(f))
        elif first_violation_at is None:
            print(f"harness error in shard {i} (exit {p.returncode}):\n{_log(base, i)[-6000:]}", file=sys.stderr)
            return 2
    violations = [r["violation"] for r in results if r["violation"]]
    evaluations = sum(r["evaluations"] for r in results)
    distinct = len({d for r in results for d in r["digests"]})
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:5]

    # listed findings: replayed one by one, in a fresh process each
    known_lines = []
    for k, (what, path) in enumerate(known_findings(prop)):
        msg = _replay_in_child(prop, path, base, 900 + k)
        if msg is not None:
            known_lines.append(what)
            print(f"KNOWN-FINDING: property={prop} {what}")
        else:
            print(f"note: listed finding no longer fails: {what}")

    exit_code = 0
    viol_out = []
    if violations:
        best = min(violations, key=lambda v: len(canonical(v["case"])))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, f"{prop}-{hashlib.sha1(canonical(best['case']).encode()).hexdigest()[:10]}.json")
        with open(rpath, "w") as f:
            json.dump({"property": prop, "case": best["case"], "message": best["message"],
                       "hashseed": best["hashseed"], "seed": seed,
                       "how": f"/opt/venv/bin/python /verif/run_check.py {prop} --replay {rpath}"},
                      f, indent=1, default=str)
        print(f"property {prop} is broken:\n{best['message']}")
        print(f"minimal case: {_short(canonical(best['case']), 4000)}")
        print(f"VIOLATION property={prop} replay={rpath}")
        viol_out = [{"replay": rpath, "message": best["message"]}]
        exit_code = 1

    for extra in meta.get("MUST_HIT", []):
        if not violations and labels.get(extra, 0) == 0:
            if any(r["truncated"] for r in results):
                # a machine too slow for the budget explored less; the evidence file says so
                print(f"note: class '{extra}' was not reached within the time budget")
                continue
            print(f"harness error: class '{extra}' was never generated (evaluations={evaluations})", file=sys.stderr)
            exit_code = 2

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "nontrivial_evaluations": sum(r["nontrivial"] for r in results),
            "rule": meta.get("RULE", ""),
            "classes": dict(sorted(labels.items())),
            "samples": samples,
            "shards": nshards,
            "stopped_at_time_budget": any(r["truncated"] for r in results),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": meta.get("ASSUMPTIONS", []),
        "violations": viol_out,
        "known_findings": known_lines,
    }
    with open(evidence_path, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    if exit_code == 0:
        print(f"{prop}: held on {evaluations} generated cases ({distinct} distinct non-trivial), "
              f"{evidence['wall_s']} s")
    return exit_code
