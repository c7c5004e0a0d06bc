"""C30  Filings opened in one process do not influence each other."""
import base64
import contextlib
import gc
import io
import json
import os
import re
import struct
import tempfile
import threading

from hypothesis import strategies as st

from brel.utils import pprint
from lib import anyfiling, obs, web
from lib.harness import Violation, expect_eq

ID = "C30"
QUICK = 900
THOROUGH = 12000
RULE = ("histories of 3-8 steps (open, read, print, tabulate, forget, open several in threads) over 2-4 filings of any sort, local and remote, some "
        "of them near copies of others (the same names and ids with other namespaces, prefixes, periods, units or entities), some broken; what is "
        "read is compared with what a process gives that does nothing else; non-trivial = two filings are read after a third was opened")
MUST_HIT = ["twin", "remote", "broken", "threads", "read again", "printed", "tables", "forgotten", "same filing twice", "defective", "inline", "pages",
            "report", "raised", "catalog"]
ASSUMPTIONS = ["a process that has opened nothing yet is a fork of this one from before its first case"]

CATALOG = ('<?xml version="1.0"?><catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">'
           + "".join(f'<rewriteURI uriStartString="http://web{k}.example.com/" rewritePrefix="../"/>' for k in range(4)) + "</catalog>")
TWINS = [("http://example.com/", "http://example.org/"), ("0000320193", "0000320194"), ("iso4217:USD", "iso4217:CHF"), ("xml:lang=\"en\"", "xml:lang=\"fr\""),
         ("2003/role/label", "2003/role/terseLabel"), ("instant", "duration"), ("prefix", None), ("prefix", "zz")]


# ------------------------------------------------------------------ a process that has opened nothing

def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _receive(fd):
    def read(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return json.loads(read(struct.unpack(">I", read(4))[0]))


def _serve(rfd, wfd, home):
    os.environ["HOME"] = home
    while True:
        try:
            job = _receive(rfd)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            answer = ["raised", "harness", "the process alone gave no answer"]
            try:
                pages = {u: base64.b64decode(b) for u, b in job["pages"].items()}
                obs.CACHE = os.path.join(home, ".brel", "dts_cache")
                obs.clear_cache()
                with web.serving(web.Web(pages)):
                    answer = read_safely(job["path"])
            finally:
                _send(wfd, answer)
                os._exit(0)
        os.waitpid(pid, 0)


def _start():
    home = tempfile.mkdtemp(dir=obs.WORK)
    (a, b), (c, d) = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(b)
        os.close(c)
        _serve(a, d, home)
    os.close(a)
    os.close(d)
    return c, b


def alone(path, pages):
    _send(JOBS, {"path": path, "pages": {u: base64.b64encode(b).decode() for u, b in pages.items()}})
    return _receive(ANSWERS)


# ------------------------------------------------------------------ histories

def opened(path):
    """(filing, None) or (None, what was raised)."""
    try:
        return obs.Filing.open(path), None
    except Exception as e:  # noqa: BLE001
        return None, ["raised", type(e).__name__, str(e)]


def read(path):
    filing, error = opened(path)
    return error or json.loads(json.dumps(anyfiling.view(filing), default=str))


@st.composite
def _case(draw, tier):
    filings = []
    for k in range(draw(st.integers(2, 4))):
        roll = draw(st.integers(0, 9))
        if k and roll < 4:
            x = {"twin": draw(st.integers(0, k - 1)), "changes": draw(st.lists(st.integers(0, len(TWINS) - 1), min_size=1, max_size=3, unique=True))}
        elif roll == 9:
            x = {"broken": draw(st.sampled_from(["", "<a>", "no file", "<xbrl/>", "<html xmlns='http://www.w3.org/1999/xhtml'/>"]))}
        else:
            x = draw(anyfiling.strategy("quick"))
        filings.append({**x, "remote": draw(st.integers(0, 3)) == 0, "catalog": draw(st.integers(0, 3)) == 0})
    n = len(filings)
    which = st.integers(0, n - 1)
    steps = draw(st.lists(st.one_of(
        st.fixed_dictionaries({"op": st.just("open"), "f": which}), st.fixed_dictionaries({"op": st.just("open"), "f": which}),
        st.fixed_dictionaries({"op": st.sampled_from(["read", "read", "print", "tables", "forget"]), "h": st.integers(0, 9)}),
        st.fixed_dictionaries({"op": st.just("threads"), "fs": st.lists(which, min_size=2, max_size=4)})), min_size=3, max_size=8 if tier == "quick" else 14))
    return {"filings": filings, "steps": steps}


def strategy(tier):
    return _case(tier)


def files_of(m, k):
    x = m["filings"][k]
    if "broken" in x:
        return ({} if x["broken"] == "no file" else {"i.xml": x["broken"]}), "i.xml"
    if "twin" not in x:
        return anyfiling.files_of(x)
    files, entry = files_of(m, x["twin"])

    def change(b):
        for i in x["changes"]:
            a, c = TWINS[i]
            if a == "prefix":
                # what the schema calls its own namespace, unless it refers to anything by that name
                tns = re.search(rb"targetNamespace=\"([^\"]*)\"", b)
                decl = tns and re.search(rb" xmlns:([\w.-]+)=\"" + re.escape(tns.group(1)) + rb"\"", b)
                if decl and b.count(decl.group(1) + b":") == 0:
                    b = b.replace(decl.group(0), b" xmlns:zz=\"" + tns.group(1) + b"\"" if c else b"", 1)
            elif a == "instant":
                b = re.sub(rb"(?<=[>\"])(\d{4})(?=-\d\d-\d\d)", lambda t: b"%04d" % (int(t.group(1)) + 1), b)
            else:
                b = b.replace(a.encode(), c.encode())
        return b
    return {n: change(t if isinstance(t, bytes) else t.encode()) for n, t in files.items()}, entry


def check(m):
    out = set()
    root = obs.case_dir()
    paths, pages, sorts, want = [], {}, [], {}
    for k, x in enumerate(m["filings"]):
        files, entry = files_of(m, k)
        if x["remote"] and entry and not entry.endswith("html"):
            url = f"http://web{k}.example.com/"
            pages.update({url + n: t if isinstance(t, bytes) else t.encode() for n, t in files.items()})
            paths.append(url + entry)
            out.add("remote")
        else:
            if x["catalog"]:
                # a package: its catalog redirects, for this filing, the addresses that the remote filings have
                files = {**files, "META-INF/catalog.xml": CATALOG}
                entry = ""
                out.add("catalog")
            obs.write_files(os.path.join(root, f"d{k}"), {"readme.txt": "", **files})
            paths.append(os.path.join(root, f"d{k}", entry))
        sorts.append("twin" if "twin" in x else "broken" if "broken" in x else x["sort"])

    def compare(k, got, what):
        if k not in want:
            want[k] = alone(paths[k], pages)
        if want[k] and want[k][0:1] == ["raised"] if isinstance(want[k], list) else False:
            out.add("raised")
            expect_eq(got, want[k], f"{what}: what is raised")
            return
        if isinstance(got, list):
            raise Violation(f"{what} raised {got}, but not in a process of its own")
        for part in want[k]:
            expect_eq(got[part], want[k][part], f"{what}: {part}")

    handles, opens = [], 0
    read_after = set()
    with web.serving(web.Web(pages)):
        for n, s in enumerate(m["steps"]):
            what = f"step {n} ({s['op']})"
            if s["op"] == "open":
                k = s["f"]
                filing, error = opened(paths[k])
                opens += 1
                if any(h[0] == k for h in handles):
                    out.add("same filing twice")
                if error:
                    compare(k, error, f"{what} of filing {k}")
                else:
                    handles.append([k, filing, opens])
                out.add(sorts[k])
                continue
            if s["op"] == "threads":
                results = {}

                def work(i, k):
                    results[i] = read_safely(paths[k])

                ts = [threading.Thread(target=work, args=(i, k)) for i, k in enumerate(s["fs"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                opens += len(ts)
                for i, k in enumerate(s["fs"]):
                    compare(k, results[i], f"{what}: filing {k} opened in a thread")
                out.add("threads")
                continue
            if not handles:
                continue
            h = handles[s["h"] % len(handles)]
            k, filing, at = h
            if s["op"] == "forget":
                handles.remove(h)
                del filing, h
                gc.collect()
                out.add("forgotten")
                continue
            if s["op"] == "print":
                with contextlib.redirect_stdout(io.StringIO()), quiet():
                    for x in filing.get_all_physical_networks() + filing.get_all_components() + [filing.get_all_facts()]:
                        pprint(x)
                out.add("printed")
            elif s["op"] == "tables":
                with quiet():
                    filing.generate_fact_table_pandas_df()
                    filing.generate_report_elements_as_pandas_df()
                    filing.generate_labels_as_pandas_df()
                out.add("tables")
            compare(k, view(filing), f"{what} of filing {k}")
            if opens > at:
                read_after.add(k)
                out.add("read again")
        for k, filing, at in handles:
            compare(k, view(filing), f"in the end, filing {k}")
            if opens > at:
                read_after.add(k)
    if len(read_after) > 1:
        out.add("two read later")
    return out


@contextlib.contextmanager
def quiet():
    """What printing and tabulating give is judged elsewhere."""
    try:
        yield
    except Exception:  # noqa: BLE001
        pass


def view(filing):
    try:
        return json.loads(json.dumps(anyfiling.view(filing), default=str))
    except Exception as e:  # noqa: BLE001
        return ["raised", type(e).__name__, str(e)]


def read_safely(path):
    try:
        return read(path)
    except Exception as e:  # noqa: BLE001
        return ["raised", type(e).__name__, str(e)]


def nontrivial(m, labels):
    return "two read later" in labels


ANSWERS, JOBS = _start()
