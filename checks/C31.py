"""C31  open_edgar opens exactly the filing asked for."""
import json
import os
import resource
import signal

from hypothesis import strategies as st

from brel.utils import open_edgar
from lib import gen, obs, web, xw
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C31"
QUICK = 5000
THOROUGH = 24000
RULE = ("histories of 2-8 steps (requests for a filing, new filings, time passing, processes that die while they write the list of filings) over "
        "generated EDGAR indexes of 1-3 companies with up to 8 filings each; non-trivial = two requests, one of which has several candidates")
MUST_HIT = ["found", "not found", "latest of several", "two in a month", "by date", "no XBRL", "other form", "unknown company", "from the cache", "asked again",
            "bad date", "bad form", "bad CIK", "instance missing", "xml document", "crash", "new filing seen", "new filing not yet seen", "two spellings",
            "no report date"]
ASSUMPTIONS = ["the cache of EDGAR is the folder ~/.brel_edgar_cache", "the clock is the modification time of the files in it"]
CACHE = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
CIKS = ["320193", "1", "10", "100", "1000000000", "789019", "32019"]
FORMS = ["10-K", "10-Q", "8-K", "10-K/A", "10-KT", "4", "8-K/A"]
DATES = ["2020-12-31", "2021-12-31", "2021-03-31", "2021-06-30", "2022-01-02", "2020-02-29", "2019-09-28"]
DOCS = ["a%d-10k.htm", "d%d.htm", "x.htm-%d.htm", "%d.htm.htm", "html%d.htm", "inst-%d.xml"]


@st.composite
def _dates(draw):
    """Report dates some of which only differ in the day, the month or the year."""
    y, mth, d = draw(st.integers(2018, 2024)), draw(st.integers(1, 12)), draw(st.integers(1, 28))
    near = [(y, mth, d % 28 + 1), (y, mth, (d + 12) % 28 + 1), (y, mth % 12 + 1, d), (y + 1, mth, d), (y - 1, mth, d), (y - 1, mth % 12 + 1, d), (y, d % 12 + 1, mth)]
    return ["%04d-%02d-%02d" % x for x in [(y, mth, d)] + draw(st.lists(st.sampled_from(near), min_size=1, max_size=4, unique=True))] + [draw(st.sampled_from(DATES))]


@st.composite
def _filing(draw, dates):
    return {"form": draw(st.sampled_from(["10-K"] * 4 + FORMS)), "date": draw(gen.weighted((9, st.sampled_from(dates)), (1, st.just("")))), "xbrl": draw(st.sampled_from([1, 1, 1, 0])),
            "doc": draw(st.sampled_from(DOCS)), "missing": draw(st.integers(0, 9)) == 0}


@st.composite
def _case(draw, tier):
    n = draw(st.integers(1, 3))
    dates = draw(_dates())
    big = 16 if tier == "thorough" else 8
    ask = st.fixed_dictionaries({"op": st.just("open"), "of": st.integers(0, n - 1), "spell": st.sampled_from(["plain", "full", "partly"]),
                                 "form": st.sampled_from(["10-K"] * 3 + FORMS[:3]),
                                 "date": st.one_of(st.none(), st.none(), st.sampled_from(dates))})
    bad = st.fixed_dictionaries({"op": st.just("bad"), "of": st.integers(0, n - 1), "how": st.sampled_from([
        ["cik", "12345678901"], ["cik", 320193], ["cik", "7"], ["cik", "none"], ["form", "10-K/A"], ["form", "10k"], ["form", ""],
        ["date", "31.12.2020"], ["date", "2020-13-01"], ["date", "2020"], ["date", 2020], ["date", "2020-12-31 "]])})
    new = st.fixed_dictionaries({"op": st.just("new"), "of": st.integers(0, n - 1), "filing": _filing(dates),
                                 "hours": st.sampled_from([0, 1, 20, 23.9, 24.1, 30, 49])})
    wait = st.fixed_dictionaries({"op": st.just("wait"), "hours": st.sampled_from([1, 20, 23.9, 24.1, 30, 47, 49, 2000])})
    crash = st.fixed_dictionaries({"op": st.just("crash"), "of": st.integers(0, n - 1), "limit": st.integers(0, 30)})
    step = gen.weighted((8, ask), (1, bad), (2, new), (2, wait), (1, crash))
    return {"ciks": draw(st.lists(st.sampled_from(CIKS), min_size=n, max_size=n, unique=True)),
            "filings": [draw(st.lists(_filing(dates), min_size=draw(st.sampled_from([0, 2, 4, 4])), max_size=big)) for _ in range(n)],
            "steps": draw(st.lists(step, min_size=3, max_size=8 if tier == "quick" else 14))}


def strategy(tier):
    return _case(tier)


def accession(c, j):
    return "%010d-24-%06d" % (int(CIKS[0]) + c, (j * 31 + 17) % 97)  # not in the order of the list


def index_of(cik, c, filings):
    """The page of data.sec.gov: parallel lists, newest filing first."""
    js = list(range(len(filings)))[::-1]
    return json.dumps({"cik": cik, "name": "Company é " + cik, "filings": {"recent": {
        "accessionNumber": [accession(c, j) for j in js], "form": [filings[j]["form"] for j in js], "reportDate": [filings[j]["date"] for j in js],
        "isXBRL": [filings[j]["xbrl"] for j in js], "isInlineXBRL": [filings[j]["xbrl"] for j in js],
        "primaryDocument": [filings[j]["doc"] % j for j in js]}, "files": []}}).encode()


def publish(pages, cik, c, filings):
    pages[f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"] = index_of(cik, c, filings)
    for j, f in enumerate(filings):
        folder = f"https://www.sec.gov/Archives/edgar/data/{cik.zfill(10)}/{accession(c, j).replace('-', '')}/"
        doc = f["doc"] % j
        pages[folder + doc] = b"<html>the page</html>"
        if doc.endswith(".htm"):
            doc = doc[:-4] + "_htm.xml"
        if not f["missing"]:
            pages[folder + doc] = xw.instance_xml({
                "schemaRefs": ["s.xsd"], "nsmap": {"t": "http://example.com/t"},
                "contexts": [{"id": "c", "scheme": "urn:s", "entity": "e", "period": ["instant", "2020-01-01"], "dims": []}], "units": [],
                "facts": [{"concept": "t:E", "ctx": "c", "unit": None, "id": "f", "value": f"{cik} {accession(c, j)}", "nil": False}]}).encode()
            pages[folder + "s.xsd"] = xw.schema_xml({"ns": "http://example.com/t", "prefix": "t", "elements": [
                {"name": "E", "id": "E", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "instant"}]}, {}).encode()
        else:
            pages.pop(folder + doc, None)


def call(cik, form, date, what):
    """The value of the fact of the filing that was opened, or None and the error."""
    try:
        filing = open_edgar(cik, form) if date is None else open_edgar(cik, form, date)
    except ValueError as e:
        return None, e
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__}: {e}") from e
    with under_test(what):
        if obs.errors_of(filing):
            expect_eq(filing.get_all_facts(), [], f"{what}: facts of a filing that could not be read")
            return None, str(obs.errors_of(filing)[0])
        facts = filing.get_all_facts()
        expect_eq(len(facts), 1, f"{what}: facts")
        return str(facts[0]), None


def check(m):
    out = set()
    obs.case_dir()
    for n in os.listdir(CACHE):
        os.unlink(os.path.join(CACHE, n))
    pages = {}
    filings = [list(fs) for fs in m["filings"]]
    known, spelled = {}, {}  # company -> [the filings that the cached list has, its age in hours]
    asked = several = 0
    for c, cik in enumerate(m["ciks"]):
        publish(pages, cik, c, filings[c])
    w = web.Web(pages)
    with web.serving(w):
        for n, s in enumerate(m["steps"]):
            op, what = s["op"], f"step {n}"
            w.pages = pages
            w.requests.clear()
            if op in ("wait", "new"):
                for f in os.listdir(CACHE):
                    p = os.path.join(CACHE, f)
                    t = os.path.getmtime(p) - s["hours"] * 3600
                    os.utime(p, (t, t))
                for k in known.values():
                    k = k[1] if k[0] == "either" else k
                    k[1] += s["hours"]
            if op == "wait":
                continue
            cik = m["ciks"][s["of"]]
            if op == "new":
                filings[s["of"]].append(s["filing"])
                publish(pages, cik, s["of"], filings[s["of"]])
                continue
            if op == "crash":
                old = known.get(s["of"])
                if old is None or old[0] != "either":
                    crashing_open(cik, s["limit"] * 40)
                    if old is None or old[1] > 24:
                        known[s["of"]] = ["either", [list(filings[s["of"]]), 0]]
                    out.add("crash")
                continue
            if op == "bad":
                what_, x = s["how"]
                got, error = call(x if what_ == "cik" else cik, x if what_ == "form" else "10-K", x if what_ == "date" else None,
                                  f"{what}: {what_} {x!r}")
                expect(got is None, f"{what}: the {what_} {x!r} opened {got!r}")
                out.add({"cik": "unknown company" if x in ("7", "none") else "bad CIK", "form": "bad form", "date": "bad date"}[what_])
                if what_ == "cik" and x not in ("7", "none") or what_ == "form":
                    expect_eq(w.requests, [], f"{what}: requests for the {what_} {x!r}")
                continue
            asked += 1
            spell = {"plain": cik, "full": cik.zfill(10), "partly": cik.zfill(8)}[s["spell"]]
            what = f"{what}: open_edgar({spell!r}, {s['form']!r}, {s['date']!r})"
            got, error = call(spell, s["form"], s["date"], what)
            lists = [r for r in w.requests if r.startswith("https://data.sec.gov/")]
            k = known.get(s["of"])
            if k is not None and k[0] == "either":
                # a process may have died while it wrote the list: whether it came to its end shows in whether the list is asked for now
                k = None if lists else k[1]
            if k is None or k[1] > 24:
                expect_eq(lists, [f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"], f"{what}: requests for the list of filings")
                out.add("asked again" if k else "asked")
                if k and len(filings[s["of"]]) > len(k[0]):
                    out.add("new filing seen")
                k = [list(filings[s["of"]]), 0]
            else:
                expect_eq(lists, [], f"{what}: requests for the list of filings, which is {k[1]} hours old")
                out.add("from the cache")
                if len(filings[s["of"]]) > len(k[0]):
                    out.add("new filing not yet seen")
            known[s["of"]] = k
            if spelled.setdefault(s["of"], spell) != spell:
                out.add("two spellings")
            fits = [j for j, f in enumerate(k[0]) if f["form"] == s["form"] and f["xbrl"] and (s["date"] is None or f["date"] == s["date"])]
            if any(f["form"] == s["form"] and not f["xbrl"] for f in k[0]):
                out.add("no XBRL")
            if any(f["form"].startswith(s["form"]) and f["form"] != s["form"] for f in k[0]):
                out.add("other form")
            if not fits:
                expect(got is None, f"{what} opened {got!r}, but no filing fits")
                out.add("not found")
                continue
            if not all(k[0][j]["date"] for j in fits):
                out.add("no report date")
            last = max(k[0][j]["date"] for j in fits)
            best = [j for j in fits if k[0][j]["date"] == last]
            if len({k[0][j]["date"] for j in fits}) > 1:
                out.add("latest of several")
            if any(k[0][j]["date"][:7] == last[:7] and k[0][j]["date"] != last for j in fits):
                out.add("two in a month")
            if len(k[0]) > 1:
                several += 1
            if got is None:
                expect(any(k[0][j]["missing"] for j in best), lambda: f"{what} failed: {error}")
                out.add("instance missing")
                continue
            expect(got in [f"{cik} {accession(s['of'], j)}" for j in best if not k[0][j]["missing"]],
                   lambda: f"{what} opened {got!r}, not one of the filings {[accession(s['of'], j) for j in best]}")
            out.add("found")
            if s["date"]:
                out.add("by date")
            if any(k[0][j]["doc"].endswith(".xml") for j in best):
                out.add("xml document")
    if asked > 1 and several:
        out.add("several requests")
    return out


def crashing_open(cik, limit):
    """Ask for a filing in a child that the kernel kills when it writes more than limit bytes to one file."""
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            open_edgar(cik, "10-K", "1999-01-01")
        except BaseException:  # noqa: BLE001 - what counts is what is opened afterwards
            pass
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def nontrivial(m, labels):
    return "several requests" in labels

