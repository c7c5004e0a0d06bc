"""C27  What is read does not depend on incidental syntax."""
import contextlib
import io
import json
import os
import struct
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from brel.utils import pprint
from lib import anyfiling, obs, xmlstyle
from lib.harness import expect, expect_eq, under_test

ID = "C27"
QUICK = 2200
THOROUGH = 40000
RULE = ("well-formed filings of every sort, opened as generated and rewritten with up to 17 changes of syntax in one of 7 encodings, and opened in a "
        "process with another hash seed; non-trivial = a fact or a network, and at least two changes")
MUST_HIT = xmlstyle.OPTIONS + xmlstyle.ENCODINGS + ["other hash seed", "report", "inline", "pages", "presentation", "calculation", "definition"]
SORTS = ("report", "report", "report", "calculation", "presentation", "definition", "inline", "pages")


@st.composite
def _case(draw, tier):
    return {"filing": draw(anyfiling.strategy("quick", SORTS)), "options": [o for o in xmlstyle.OPTIONS if draw(st.booleans()) and draw(st.booleans())],
            "encoding": draw(st.sampled_from(xmlstyle.ENCODINGS)), "seed": draw(st.integers(0, 10**6))}


def strategy(tier):
    return _case(tier)


# ------------------------------------------------------------------ a process with another hash seed

def _send(f, obj):
    b = json.dumps(obj).encode()
    f.write(struct.pack(">I", len(b)) + b)
    f.flush()


def _receive(f):
    return json.loads(f.read(struct.unpack(">I", f.read(4))[0]))


def everything(path):
    """What is read and printed, in its order."""
    filing = obs.Filing.open(path)
    v = json.loads(json.dumps(anyfiling.view(filing), default=str))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for x in filing.get_all_components() + filing.get_all_physical_networks():
            pprint(x)
        pprint(filing.get_all_facts())
    v["printed"] = out.getvalue().split("\n")
    return v


def serve():
    """The main loop of the other process."""
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            path = _receive(sys.stdin.buffer)
        except struct.error:
            return
        try:
            answer = everything(path)
        except Exception as e:  # noqa: BLE001
            answer = {"raised": f"{type(e).__name__}: {e}"}
        _send(out, answer)


_other = []


def in_other_process(path):
    if not _other:
        home = tempfile.mkdtemp(dir=obs.WORK)
        seed = (int(os.environ.get("PYTHONHASHSEED") or 0) + 7919) % 4294967295
        env = {**os.environ, "HOME": home, "VERIF_WORK": home, "PYTHONHASHSEED": str(seed)}
        path_ = json.dumps(sys.path)
        _other.append(subprocess.Popen([sys.executable, "-W", "ignore", "-c", f"import sys; sys.path[:] = {path_}; from checks import C27; C27.serve()"],
                                       env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    _send(_other[0].stdin, path)
    return _receive(_other[0].stdout)


# ------------------------------------------------------------------ the check

def canonical(filing):
    """What is read, without prefixes, and without the order of what has none."""
    def key(x):
        return json.dumps(x, sort_keys=True)
    els = [{**e, **({"data_type": e["data_type"].split(":")[-1]} if "data_type" in e else {})} for e in obs.elements_view(filing)]
    return {"errors": [str(e) for e in filing.get_all_errors()], "facts": obs.facts_view(filing), "elements": sorted(els, key=key),
            "components": sorted([[c.get_URI(), c.get_info(), sorted(map(obs.network_view, c.get_networks()), key=key)] for c in filing.get_all_components()],
                                 key=key),
            "networks": sorted(map(obs.network_view, filing.get_all_physical_networks()), key=key)}


def check(m):
    out = {m["filing"]["sort"], m["encoding"], *m["options"]}
    files, entry = anyfiling.files_of(m["filing"])
    d = obs.case_dir()
    obs.write_files(os.path.join(d, "a"), files)
    plain = obs.open_path(os.path.join(d, "a", entry), "opening the filing as generated")
    with under_test("reading the filing as generated"):
        want = canonical(plain)
    expect_eq(want["errors"], [], "errors of a well-formed filing")
    again = {n: xmlstyle.restyle(t, m["options"], m["encoding"], m["seed"]) for n, t in files.items()}
    obs.write_files(os.path.join(d, "b"), again)
    other = obs.open_path(os.path.join(d, "b", entry), "opening the rewritten filing")
    with under_test("reading the rewritten filing"):
        got = canonical(other)
    for part in want:
        expect_eq(got[part], want[part], f"{part} of the rewritten filing")
    if m["seed"] % 3 == 0:
        for x in "ab":
            path = os.path.join(d, x, entry)
            with under_test("reading and printing"):
                here = everything(path)
            there = in_other_process(path)
            expect("raised" not in there, lambda: f"in a process with another hash seed: {there}")
            for part in here:
                expect_eq(there[part], here[part], f"{part} in a process with another hash seed")
        out.add("other hash seed")
    if (want["facts"] or want["networks"]) and len(m["options"]) > 1:
        out.add("something changed")
    return out


def nontrivial(m, labels):
    return "something changed" in labels
