"""C06  Look-up by name finds exactly the named thing."""
from hypothesis import strategies as st

from lib import gen, obs, xw
from lib.harness import expect, expect_eq, under_test
from brel import QName
from brel.qnames.qname_search_params import QNameSearchParams  # noqa: F401  (public helper, exercised through Filing)
from brel.reportelements import Concept

ID = "C06"
QUICK = 12000
THOROUGH = 150000
RULE = ("taxonomies of 1-3 schemas sharing local names and partly prefixes, an instance with facts, and up to 14 queries per filing "
        "in every notation, hits and near misses; non-trivial = a query that hits and one that must fail")
MUST_HIT = ["hit", "miss", "ambiguous", "QName", "clark", "prefix", "local", "typed only", "prefix bound twice",
            "unbound prefix", "facts", "wrong kind"]

POOL = ["Assets", "assets", "Asset", "Cash", "Cash.x", "Cash-x", "Ünit", "_A", "item", "Domain"]


@st.composite
def _case(draw, tier):
    nsch = draw(st.integers(1, 3))
    uris = draw(st.lists(st.sampled_from(gen.NAMESPACES), min_size=nsch, max_size=nsch, unique=True))
    prefixes = draw(st.lists(st.sampled_from(["a", "b", "us-gaap", "x1", "A"]), min_size=nsch, max_size=nsch))
    schemas = []
    for k in range(nsch):
        els = []
        for n in draw(gen.distinct_names(1, 6, st.sampled_from(POOL))):
            kind = draw(st.sampled_from(["concept", "concept", "concept", "abstract", "member", "dimension"]))
            els.append({"name": n, "kind": kind})
        schemas.append({"ns": uris[k], "prefix": prefixes[k], "own": draw(st.sampled_from(["prefix", "prefix", "prefix", "none"])),
                        "elements": els})
    concepts = [[k, i] for k, s in enumerate(schemas) for i, e in enumerate(s["elements"]) if e["kind"] == "concept"]
    facts = [draw(st.sampled_from(concepts)) for _ in range(draw(st.integers(0, 6)))] if concepts else []
    iprefixes = draw(st.lists(st.sampled_from(["a", "b", "q", "x1", "us-gaap"]), min_size=nsch, max_size=nsch, unique=True))
    queries = []
    everything = [[k, i] for k, s in enumerate(schemas) for i in range(len(s["elements"]))]
    for _ in range(draw(st.integers(2, 14))):
        notation = draw(st.sampled_from(["QName", "clark", "prefix", "prefix", "local"]))
        k, i = draw(st.sampled_from(everything))
        name = schemas[k]["elements"][i]["name"]
        if draw(st.integers(0, 3)) == 0:
            name = draw(st.sampled_from(POOL + ["Nothing", name + "x", name[:-1] or "q", name.swapcase()]))
        uri = schemas[k]["ns"] if draw(st.integers(0, 4)) else draw(st.sampled_from(gen.NAMESPACES))
        prefix = draw(st.sampled_from([schemas[k]["prefix"], iprefixes[k], "a", "b", "zz", "xbrli"]))
        queries.append({"how": notation, "name": name, "uri": uri, "prefix": prefix})
    return {"schemas": schemas, "facts": facts, "iprefixes": iprefixes, "queries": queries}


def strategy(tier):
    return _case(tier)


DECL = {
    "concept": {"type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "instant"},
    "abstract": {"type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "instant", "abstract": "true"},
    "member": {"type": "nonnum:domainItemType", "sg": "xbrli:item", "periodType": "duration", "abstract": "true"},
    "dimension": {"type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem", "periodType": "duration", "abstract": "true"},
}


def check(m):
    labels = set()
    files = {}
    for k, s in enumerate(m["schemas"]):
        files[f"s{k}.xsd"] = xw.schema_xml(
            {"ns": s["ns"], "prefix": s["prefix"] if s["own"] == "prefix" else None,
             "elements": [{"name": e["name"], "id": f"e{k}_{i}", **DECL[e["kind"]]} for i, e in enumerate(s["elements"])]},
            gen.SCHEMA_NS)
    used = sorted({k for k, _ in m["facts"]})
    files["i.xml"] = xw.instance_xml({
        "schemaRefs": [f"s{k}.xsd" for k in range(len(m["schemas"]))],
        "nsmap": {m["iprefixes"][k]: m["schemas"][k]["ns"] for k in used},
        "contexts": [{"id": "c", "scheme": "http://s", "entity": "E", "period": ["instant", "2024-01-01"], "dims": []}],
        "facts": [{"concept": m["iprefixes"][k] + ":" + m["schemas"][k]["elements"][i]["name"], "ctx": "c", "id": f"f{j}",
                   "value": f"v{j}"} for j, (k, i) in enumerate(m["facts"])]})
    filing = obs.open_files(files, "i.xml")
    # what every prefix may stand for
    bound = {}
    for k, s in enumerate(m["schemas"]):
        if s["own"] == "prefix":
            bound.setdefault(s["prefix"], set()).add(s["ns"])
    for k in used:
        bound.setdefault(m["iprefixes"][k], set()).add(m["schemas"][k]["ns"])
    table = {(s["ns"], e["name"]): e["kind"] for s in m["schemas"] for e in s["elements"]}
    fact_ids = {}
    for j, (k, i) in enumerate(m["facts"]):
        fact_ids.setdefault((m["schemas"][k]["ns"], m["schemas"][k]["elements"][i]["name"]), []).append(f"f{j}")
    obs.expect_no_errors(filing)
    with under_test("reading the report elements"):
        expect_eq(sorted((e.get_name().get_URL(), e.get_name().get_local_name()) for e in filing.get_all_report_elements()),
                  sorted(table), "report elements")
        reported = [(c.get_name().get_URL(), c.get_name().get_local_name()) for c in filing.get_all_reported_concepts()]
        expect_eq(sorted(reported), sorted(fact_ids), "reported concepts")
        for c in filing.get_all_concepts():
            n = (c.get_name().get_URL(), c.get_name().get_local_name())
            expect_eq(sorted(f.get_id() for f in filing.get_facts_by_concept(c)), sorted(fact_ids.get(n, [])),
                      f"facts of concept {n}")
    for q in m["queries"]:
        if q["how"] == "QName":
            arg = QName(q["uri"], q["prefix"], q["name"])
            cand = [(q["uri"], q["name"])]
        elif q["how"] == "clark":
            arg = "{%s}%s" % (q["uri"], q["name"])
            cand = [(q["uri"], q["name"])]
        elif q["how"] == "prefix":
            arg = q["prefix"] + ":" + q["name"]
            cand = [(u, q["name"]) for u in bound.get(q["prefix"], ())]
            if len(bound.get(q["prefix"], ())) > 1:
                labels.add("prefix bound twice")
            if q["prefix"] not in bound:
                labels.add("unbound prefix")
        else:
            arg = q["name"]
            cand = [n for n in table if n[1] == q["name"]]
        labels.add(q["how"])
        hits = [n for n in cand if n in table]
        chits = [n for n in hits if table[n] == "concept"]
        _query(labels, f"get_report_element_by_name({arg!r})", lambda: filing.get_report_element_by_name(arg), hits)
        wrong = hits if q["how"] == "QName" and hits and not chits else []
        if wrong:
            labels.add("wrong kind")
        if len(hits) > 1 and len(chits) == 1:
            labels.add("typed only")
        for name, fn in [("get_concept_by_name", filing.get_concept_by_name), ("get_concept", filing.get_concept)]:
            _query(labels, f"{name}({arg!r})", lambda: fn(arg), chits, Concept)
        if len(chits) == 1:
            with under_test(f"get_facts_by_concept_name({arg!r})"):
                got = sorted(f.get_id() for f in filing.get_facts_by_concept_name(arg))
            expect_eq(got, sorted(fact_ids.get(chits[0], [])), f"get_facts_by_concept_name({arg!r})")
            if got:
                labels.add("facts")
        else:
            _fails(f"get_facts_by_concept_name({arg!r})", lambda: filing.get_facts_by_concept_name(arg))
    # QNames: equality and hashing by namespace and local name only
    for a in m["queries"]:
        for b in m["queries"]:
            x, y = QName(a["uri"], a["prefix"], a["name"]), QName(b["uri"], b["prefix"], b["name"])
            same = (a["uri"], a["name"]) == (b["uri"], b["name"])
            expect_eq(x == y, same, f"{x!r} == {y!r}")
            if same:
                expect_eq(hash(x), hash(y), f"hash of {x!r} and {y!r}")
            expect_eq([x.get_URL(), x.get_prefix(), x.get_local_name()], [a["uri"], a["prefix"], a["name"]], "parts of a QName")
            expect_eq([x.clark_notation(), x.prefix_local_name_notation()],
                      ["{%s}%s" % (a["uri"], a["name"]), f'{a["prefix"]}:{a["name"]}'], "notations of a QName")
    return labels


def _query(labels, what, call, hits, cls=None):
    if len(hits) == 1:
        labels.add("hit")
        with under_test(what):
            e = call()
            n = e.get_name()
        expect_eq((n.get_URL(), n.get_local_name()), hits[0], what)
        if cls:
            expect(isinstance(e, cls), f"{what} is no {cls.__name__}")
    else:
        labels.add("ambiguous" if hits else "miss")
        _fails(what, call)


def _fails(what, call):
    try:
        r = call()
    except (ValueError, KeyError):
        return
    except Exception as e:  # noqa: BLE001
        expect(False, f"{what} must fail with ValueError or KeyError, raised {type(e).__name__}: {e}")
    expect(r is None, f"{what} must fail, gave {r!r}")


def nontrivial(m, labels):
    return "hit" in labels and bool(labels & {"miss", "ambiguous"})
