"""C02  Periods are read with their exact dates and kind."""
import datetime

from hypothesis import strategies as st

from lib import gen, obs, xw
from lib.harness import Violation, expect, expect_eq, under_test
from brel.characteristics import Aspect, PeriodCharacteristic

ID = "C02"
QUICK = 12000
THOROUGH = 80000
RULE = ("XML instances with one fact per context over 1-6 contexts, each an instant or a duration written as xs:date or "
        "xs:dateTime (with fractions, zones, whitespace), or a period with one malformed or missing date; non-trivial = at "
        "least two contexts with distinct periods, or a malformed one")
MUST_HIT = ["instant", "duration", "dateTime form", "zone", "bad date", "end before start", "same day duration",
            "leap day", "equal periods in different contexts",
            "periods of one kind that differ in one date"]

D = gen.dates
edge = st.sampled_from(["2020-02-29", "2000-02-29", "2100-02-28", "1999-12-31", "2000-01-01", "2012-12-12", "2001-02-03",
                        "2003-02-01", "0999-10-11", "2024-10-09", "1900-03-01", "2011-11-10"])
date = st.one_of(edge, D)
suffix = st.sampled_from(["", "", "", "T00:00:00", "T23:59:59", "T12:30:00.25", "T00:00:00Z", "T23:30:00-11:00",
                          "T00:30:00+14:00", "Z", "+02:00", "-05:00"])
pad = st.sampled_from(["", "", "", " ", "\n  "])
BAD = ["", " ", "abc", "2020-13-01", "2021-02-29", "2020-00-10", "2020-04-31", "20-01-01", "2020/01/01", "01.02.2020",
       "2020", "2020-01", "May 2020", "12", "99999999999999999999", "2020-1-1", "--05-06", "2020-01-01x"]


@st.composite
def _one(draw):
    kind = draw(st.sampled_from(["instant", "duration", "duration"]))
    ds = [draw(date)] if kind == "instant" else sorted([draw(date), draw(date)])
    if kind == "duration" and draw(st.integers(0, 7)) == 0:
        ds[1] = ds[0]
    raw = [draw(pad) + d + draw(suffix) + draw(pad) for d in ds]
    bad = None
    if draw(st.integers(0, 5)) == 0:
        bad = draw(st.sampled_from(["text", "missing", "order"] if kind == "duration" else ["text", "missing"]))
        if bad == "text":
            raw[draw(st.integers(0, len(raw) - 1))] = draw(st.sampled_from(BAD))
        elif bad == "missing":
            raw[draw(st.integers(0, len(raw) - 1))] = None
        else:
            if ds[0] == ds[1]:
                bad = None
            else:
                ds.reverse()
                raw = list(ds)
    return {"kind": kind, "dates": ds, "raw": raw, "bad": bad}


@st.composite
def _model(draw, most):
    ps = draw(st.lists(_one(), min_size=1, max_size=most))
    # near misses: another period that differs from one of them in one date by a day, a month, a year or more
    for i in draw(st.lists(st.integers(0, 9), max_size=3)):
        p = ps[i % len(ps)]
        if p["bad"]:
            continue
        ds = [datetime.date.fromisoformat(d) for d in p["dates"]]
        kind = p["kind"]
        how = draw(st.sampled_from(["day", "days", "month", "year", "century", "kind"]))
        k = draw(st.integers(0, len(ds) - 1))
        try:
            if how == "kind":
                ds, kind = ([ds[k]], "instant") if kind == "duration" else ([ds[0], ds[0]], "duration")
            elif how in ("day", "days"):
                ds[k] += datetime.timedelta(draw(st.sampled_from([1, -1] if how == "day" else [7, -7, 30, -30, 10, -10])))
            elif how == "month":
                ds[k] = ds[k].replace(month=draw(st.integers(1, 12)))
            else:
                ds[k] = ds[k].replace(year=ds[k].year + draw(st.sampled_from([1, -1])) * (100 if how == "century" else 1))
        except (ValueError, OverflowError):
            continue
        ds = sorted(d.isoformat() for d in ds)
        ps.append({"kind": kind, "dates": ds, "raw": [d + draw(suffix) for d in ds], "bad": None})
    return {"periods": ps, "reuse": draw(st.lists(st.integers(0, 9), max_size=3)),
            "default_xbrli": draw(st.booleans())}


def strategy(tier):
    return _model(6 if tier == "quick" else 10)


SCHEMA = {"ns": "http://example.com/a", "prefix": "a", "elements": [
    {"name": "C", "id": "a_C", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "duration"}]}


def _period(p, px):
    def el(tag, raw):
        return "" if raw is None else f"<{px}{tag}>{raw}</{px}{tag}>"
    if p["kind"] == "instant":
        return f"<{px}period>{el('instant', p['raw'][0])}</{px}period>"
    return f"<{px}period>{el('startDate', p['raw'][0])}{el('endDate', p['raw'][1])}</{px}period>"


def _raises(f, what):
    try:
        v = f()
    except ValueError:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} raised {type(e).__name__} instead of ValueError")
    raise Violation(f"{what} gave {v!r} instead of raising ValueError")


def check(m):
    labels = set()
    ps = m["periods"] + [m["periods"][i % len(m["periods"])] for i in m["reuse"]]
    px = "" if m["default_xbrli"] else "xbrli:"
    raw = []
    for i, p in enumerate(ps):
        raw.append(f'<{px}context id="c{i}"><{px}entity><{px}identifier scheme="s">e</{px}identifier></{px}entity>'
                   f'{_period(p, px)}</{px}context>\n<a:C id="f{i}" contextRef="c{i}">v{i}</a:C>\n')
    files = {"s.xsd": xw.schema_xml(SCHEMA),
             "i.xml": xw.instance_xml({"schemaRefs": ["s.xsd"], "nsmap": {"a": SCHEMA["ns"]}, "raw": "".join(raw),
                                       "default_xbrli": m["default_xbrli"]})}
    filing = obs.open_files(files, "i.xml", "opening a filing with these periods")
    with under_test("reading the periods"):
        facts = {f.get_id(): f for f in filing.get_all_facts()}
        seen = {}
        for i, p in enumerate(ps):
            f = facts.get(f"f{i}")
            if p["bad"]:
                # the fact may have been dropped or may have no period, but never a period made up
                if f is not None and f.get_period() is not None:
                    raise Violation(f"a period that can not be read was given as {f.get_period()}: {p['raw']}")
                continue
            expect(f is not None, f"the fact with period {p['raw']} is missing")
            q = f.get_period()
            expect(isinstance(q, PeriodCharacteristic), f"period {p['raw']} was not read: {q!r}")
            want = [datetime.date.fromisoformat(d) for d in p["dates"]]
            expect_eq(q.is_instant(), p["kind"] == "instant", f"kind of the period {p['raw']}")
            if p["kind"] == "instant":
                expect_eq(q.get_instant_period(), want[0], f"instant of {p['raw']}")
                expect_eq(str(q), p["dates"][0], "text form of the instant")
                _raises(q.get_start_period, "start of an instant")
                _raises(q.get_end_period, "end of an instant")
            else:
                expect_eq((q.get_start_period(), q.get_end_period()), tuple(want), f"dates of {p['raw']}")
                expect_eq(str(q), "/".join(p["dates"]), "text form of the duration")
                _raises(q.get_instant_period, "instant of a duration")
            expect(q.get_value() == q, "get_value of a period is the period")
            expect(q.get_aspect() == Aspect.PERIOD, "aspect of a period")
            expect(f.get_characteristic(Aspect.PERIOD) == q and f.get_context().get_period() == q,
                   "the period of the fact, of its context and its period characteristic differ")
            expect_eq(f.get_context().get_characteristic_as_str(Aspect.PERIOD), str(q), "period as text")
            for k, (o, oq) in seen.items():
                same = (o["kind"], o["dates"]) == (p["kind"], p["dates"])
                expect_eq(oq == q, same, f"equality of the periods {o['raw']} and {p['raw']}")
                if same:
                    labels.add("equal periods in different contexts")
                elif o["kind"] == p["kind"] and len(set(o["dates"]) | set(p["dates"])) <= len(p["dates"]) + 1:
                    labels.add("periods of one kind that differ in one date")
            seen[i] = (p, q)
    nbad = sum(1 for p in ps if p["bad"])
    errs = obs.errors_of(filing)
    if nbad == 0:
        obs.expect_no_errors(filing)
    else:
        expect(len(errs) >= nbad, f"{nbad} unreadable periods, but only {len(errs)} errors",
               errors=[str(e) for e in errs])
    for p in ps:
        labels.add(p["kind"])
        if p["bad"] in ("text", "missing"):
            labels.add("bad date")
        if p["bad"] == "order":
            labels.add("end before start")
        if not p["bad"]:
            if any("T" in r for r in p["raw"]):
                labels.add("dateTime form")
            if any(r.strip()[10:].endswith(("Z", ":00")) and r.strip()[10:] not in ("T00:00:00",) for r in p["raw"]):
                labels.add("zone")
            if p["kind"] == "duration" and p["dates"][0] == p["dates"][1]:
                labels.add("same day duration")
            if any(d.endswith("02-29") for d in p["dates"]):
                labels.add("leap day")
    return labels


def nontrivial(m, labels):
    return "bad date" in labels or "end before start" in labels or len({str(p["dates"]) for p in m["periods"]}) > 1
