"""C24  The document cache never changes what is read."""
import os
import resource
import signal

from hypothesis import strategies as st

from lib import gen, obs, web, xw
from lib.harness import expect, expect_eq, under_test

ID = "C24"
QUICK = 5000
THOROUGH = 40000
RULE = ("histories of 3-9 opens of local and remote reports, new versions on the web, sites going down and up, edits of local files, cache "
        "clearings, full disks and processes that die while they write to the cache, over 2-4 easily confused URLs; non-trivial = "
        "the same URL is needed in two opens between which something changed")
ASSUMPTIONS = ["the cache is the folder ~/.brel/dts_cache", "a dying process is a child that the kernel kills in the middle of a write"]

LONG = "http://a.example.com/" + "very-long-folder-name/" * 7
URLS = ["http://a.example.com/tax/x.xsd", "https://a.example.com/tax/x.xsd", "http://www.a.example.com/tax/x.xsd",
        "http://a.example.com/tax_x.xsd", "http://a.example.com/tax-x.xsd", "http://a.example.com/tax/x_xsd.xsd", "http://a.example.com/tax.x.xsd",
        "http://a.example.com/TAX/x.xsd", "http://a.example.com/tax/?v=1.xsd", "http://a.example.com/tax/?v=2.xsd",
        LONG + "one.xsd", LONG + "two.xsd", "http://b.example.com/loc.xsd", "http://b.example.com/i.xsd", "http://a.example.com/a%20b.xsd",
        "http://a.example.com/a_20b.xsd", "http://a.example.com:8080/tax/x.xsd"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "iso-8859-1"]


@st.composite
def _case(draw, tier):
    n = draw(st.integers(2, 4))
    urls = draw(st.lists(st.integers(0, len(URLS) - 1), min_size=n, max_size=n, unique=True))
    imports = [draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)) for _ in range(n)]
    which = st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)
    opened = st.fixed_dictionaries({"op": st.just("open"), "dir": st.integers(0, 1), "urls": which, "local": st.booleans()})
    op = gen.weighted(
        (6, opened),
        (1, st.just({"op": "open remote"})),
        (1, st.just({"op": "publish"})),
        (1, st.fixed_dictionaries({"op": st.just("down"), "url": st.integers(0, n - 1), "how": st.sampled_from([404, 500, "connection"])})),
        (1, st.fixed_dictionaries({"op": st.just("up"), "url": st.integers(0, n - 1)})),
        (1, st.just({"op": "clear"})),
        (1, st.fixed_dictionaries({"op": st.just("edit"), "dir": st.integers(0, 1)})),
        (1, st.fixed_dictionaries({"op": st.sampled_from(["crash", "full"]), "urls": which, "limit": st.integers(1, 40)})),
    )
    return {"urls": urls, "imports": imports, "enc": [draw(st.integers(0, 3)) for _ in range(n)], "remote_refs": draw(which),
            "text": draw(st.text(alphabet="aé ü&<ñ\n", max_size=6)),
            "steps": draw(st.lists(op, min_size=3, max_size=9 if tier == "quick" else 14))}


def strategy(tier):
    return _case(tier)


def page(m, i, version):
    """Version `version` of the schema at URL i: it declares one element, and one role that has its text."""
    s = {"ns": f"http://example.com/ns{i}", "prefix": f"n{i}",
         "elements": [{"name": f"E{i}V{version}", "id": f"e{i}", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "instant"}],
         "imports": [{"ns": f"http://example.com/ns{j}", "loc": URLS[m["urls"][j]]} for j in m["imports"][i]],
         "roles": [{"uri": f"http://example.com/role{i}", "id": "r", "def": text(m, i, version), "usedOn": []}]}
    enc = ENCODINGS[m["enc"][i]]
    name = {"utf-8-sig": "utf-8"}.get(enc, enc)
    x = xw.schema_xml(s).replace('encoding="UTF-8"', f'encoding="{name}"')
    return (x + "<!--" + "padding " * 500 + "-->\n").encode(enc)


def text(m, i, version):
    return f"{m['text']} version {version} of {i}"


def local_schema(d, version):
    s = {"ns": f"http://example.com/local{d}", "prefix": "l",
         "elements": [{"name": f"L{d}V{version}", "id": "l", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "instant"}]}
    return xw.schema_xml(s)


def entry(refs):
    return xw.instance_xml({"schemaRefs": refs})


REMOTE_ENTRY = "http://c.example.com/reports/i.xml"


class World:
    def __init__(self, m, d):
        self.m, self.d = m, d
        n = len(m["urls"])
        self.version = [0] * (n + 1)  # the last one is the remote entry
        self.down = {}
        self.cached, self.maybe = {}, {}
        self.local = [0, 0]
        self.web = web.Web()

    def url(self, i):
        return REMOTE_ENTRY if i == len(self.m["urls"]) else URLS[self.m["urls"][i]]

    def content(self, i, version):
        if i == len(self.m["urls"]):
            refs = self.m["remote_refs"]
            return entry([self.url(j) for j in (refs if version % 2 == 0 else refs[:1])]).encode()
        return page(self.m, i, version)

    def refs(self, i, version):
        if i == len(self.m["urls"]):
            return self.m["remote_refs"] if version % 2 == 0 else self.m["remote_refs"][:1]
        return self.m["imports"][i]

    def publish(self):
        self.web.pages = {}
        for i in range(len(self.version)):
            how = self.down.get(i)
            if how is None:
                self.web.pages[self.url(i)] = self.content(i, self.version[i])
            elif how == "connection":
                from requests.exceptions import ConnectionError
                self.web.pages[self.url(i)] = ConnectionError("no route to host")
            else:
                self.web.pages[self.url(i)] = how
        self.web.requests.clear()

    def write_local(self, k, urls, with_local):
        folder = os.path.join(self.d, f"dir{k}")
        obs.write_files(folder, {"i.xml": entry([self.url(j) for j in urls] + (["loc.xsd"] if with_local else [])),
                                 "loc.xsd": local_schema(k, self.local[k])})
        for f in os.listdir(folder):  # neither the size nor the time tells that a file has changed
            os.utime(os.path.join(folder, f), (1700000000, 1700000000))
        return os.path.join(folder, "i.xml")


def check(m):
    out = set()
    d = obs.case_dir()
    w = World(m, d)
    changed_since, needed = {}, set()
    with web.serving(w.web):
        for n, s in enumerate(m["steps"]):
            op = s["op"]
            what = f"step {n} ({op})"
            if op == "publish":
                for i in range(len(w.version)):
                    w.version[i] += 1
                    changed_since[i] = True
            elif op == "down":
                w.down[s["url"]] = s["how"]
                changed_since[s["url"]] = True
            elif op == "up":
                w.down.pop(s["url"], None)
            elif op == "clear":
                obs.clear_cache()
                w.cached.clear()
                w.maybe.clear()
                changed_since = {i: True for i in range(len(w.version))}
            elif op == "edit":
                w.local[s["dir"]] += 1
                out.add("edit")
            elif op in ("crash", "full"):
                w.publish()
                path = w.write_local(0, s["urls"], False)
                disturbed_open(op, path, s["limit"] * 200)
                out.add(op)
                todo = list(s["urls"])
                seen = set()
                while todo:
                    i = todo.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    todo += w.refs(i, 0)
                    if i not in w.cached and i not in w.down:
                        w.maybe.setdefault(i, []).append(w.version[i])
                        out.add("disturbed download")
            else:
                w.publish()
                if op == "open":
                    path = w.write_local(s["dir"], s["urls"], s["local"])
                    start = list(s["urls"])
                else:
                    path = REMOTE_ENTRY
                    start = [len(m["urls"])]
                filing = obs.open_path(path, f"{what} of {path}")
                requests = list(w.web.requests)
                elements = sorted(e["name"] for e in obs.elements_view(filing))
                infos = {c.get_URI(): c.get_info() for c in filing.get_all_components()}
                # the model
                want, want_info, failed, todo, seen = [], {}, 0, start, set()
                if op == "open" and s["local"]:
                    want.append("{http://example.com/local%d}L%dV%d" % (s["dir"], s["dir"], w.local[s["dir"]]))
                while todo:
                    i = todo.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    asked = requests.count(w.url(i))
                    if i in w.cached:
                        expect_eq(asked, 0, f"{what}: downloads of {w.url(i)}, which is in the cache")
                        version = w.cached[i]
                        out.add("from the cache")
                    elif i in w.maybe and asked == 0:
                        # one of the downloads may have been complete before its process died
                        version = next((v for v in w.maybe[i] if "{http://example.com/ns%d}E%dV%d" % (i, i, v) in elements), w.maybe[i][0])
                    elif i in w.down:
                        expect(asked >= 1, f"{what}: {w.url(i)} was not asked for")
                        failed += 1
                        out.add("down")
                        continue
                    else:
                        expect_eq(asked, 1, f"{what}: downloads of {w.url(i)}")
                        version = w.version[i]
                        out.add("download")
                    w.cached[i] = version
                    w.maybe.pop(i, None)
                    if i in needed and changed_since.get(i):
                        out.add("needed again after a change")
                    needed.add(i)
                    changed_since[i] = False
                    if i < len(m["urls"]):
                        want.append("{http://example.com/ns%d}E%dV%d" % (i, i, version))
                        want_info[f"http://example.com/role{i}"] = text(m, i, version)
                    todo += w.refs(i, version)
                stray = set(requests) - {w.url(i) for i in seen}
                expect(not stray, f"{what}: {sorted(stray)} was asked for without need")
                expect_eq(elements, sorted(want), f"{what}: report elements")
                expect_eq(infos, want_info, f"{what}: texts of the roles")
                errors = obs.errors_of(filing)
                expect_eq(len(errors), failed, f"{what}: number of errors ({[str(e) for e in errors[:3]]})")
                if op == "open remote":
                    out.add("remote entry")
    return out


def disturbed_open(how, path, limit):
    """Open the report in a child that can write no more than limit bytes to a file: it gets an error, or is killed."""
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == "crash" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            obs.Filing.open(path)
        except BaseException:  # noqa: BLE001 - whatever happens now, what counts is what is read afterwards
            pass
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def nontrivial(m, labels):
    return "needed again after a change" in labels


MUST_HIT = ["from the cache", "download", "down", "edit", "crash", "full", "disturbed download", "remote entry", "needed again after a change"]
