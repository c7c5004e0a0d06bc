"""C15  Aggregation consistency is decided by the weighted sums."""
from fractions import Fraction

from hypothesis import strategies as st

from lib import gen, nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C15"
QUICK = 8000
THOROUGH = 100000
RULE = ("calculation networks over numeric concepts with facts in 1-3 contexts (periods, entities, dimensions) and 1-2 units, mostly adding up, "
        "with up to two deviations (a value, a missing or a repeated fact, facts of unreported parents); non-trivial = at least two facts "
        "of summation parents and two arcs")
MUST_HIT = ["consistent", "inconsistent", "missing child fact", "several child facts", "parent without facts", "inconsistent below a parent without facts",
            "several contexts", "several units", "child with a dimension more", "fractional values", "negative weight", "three levels",
            "off by a little", "only in one context", "several parents",
            "inconsistent only in totals with a precision", "without a unit", "typed dimension", "only a part of the facts", "facts of namesakes"]
DIM = "{http://example.com/d}"


@st.composite
def case(draw, tier):
    n = draw(st.integers(2, 8 if tier == "thorough" else 6))
    names = draw(gen.distinct_names(n, n))
    perm = draw(st.permutations(range(n)))
    tree = draw(st.integers(0, 3)) > 0
    arcs, pairs, inner = [], set(), set()
    for _ in range(draw(st.integers(1, 8))):
        a = draw(st.integers(0, n - 2))
        b = draw(st.integers(a + 1, n - 1))
        f, t = perm[a], perm[b]
        if (f, t) in pairs or (tree and t in inner):
            continue
        pairs.add((f, t))
        inner.add(t)
        arcs.append({"from": f, "to": [t], "arcrole": xw.ARC_SUMMATION, "par": 0, "order": draw(nets.orders),
                     "weight": draw(st.sampled_from(["1", "1", "-1", "1.0", "0.5", "-2", "0.1", "100"]))})
    # contexts differ in something: period, entity, dimension
    base = {"scheme": "http://s", "entity": "E", "period": ["instant", "2020-12-31"], "dim": None}
    variants = [base, {**base, "period": ["instant", "2019-12-31"]}, {**base, "entity": "F"}, {**base, "dim": "M1"}, {**base, "dim": "M2"},
                {**base, "period": ["duration", "2020-01-01", "2020-12-31"]}, {**base, "typed": "1"}, {**base, "typed": "2", "dim": "M1"},
                {**base, "scheme": "http://t"}, {**base, "period": ["duration", "2020-10-01", "2020-12-31"]}]
    ctxs = draw(st.lists(st.sampled_from(range(len(variants))), min_size=1, max_size=3, unique=True))
    units = draw(st.sampled_from([["USD"], ["USD"], ["USD", "EUR"], [None], [None, "USD"]]))
    order = topo(n, arcs)
    facts = []
    for c in ctxs:
        for u in units:
            vals = {}
            for x in reversed(order):
                kids = [a for a in arcs if a["from"] == x]
                vals[x] = (sum((Fraction(a["weight"]) * vals[a["to"][0]] for a in kids), Fraction(0)) if kids
                           else Fraction(draw(st.one_of(st.integers(-10**6, 10**6).map(str), small_decimals, st.integers(-10**17, 10**17).map(str)))))
            skip = draw(st.sets(st.sampled_from(range(n)), max_size=1)) if draw(st.integers(0, 3)) == 0 else set()
            facts += [{"c": x, "ctx": c, "unit": u, "value": decimal(vals[x])} for x in range(n) if x not in skip]
    top = [x for x in range(n) if any(a["from"] == x for a in arcs)]
    if draw(st.integers(0, 5)) == 0 and top:   # nobody reports this parent
        x = draw(st.sampled_from(top))
        facts = [f for f in facts if f["c"] != x]
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        if not facts:
            break
        i = draw(st.integers(0, len(facts) - 1))
        how = draw(st.sampled_from(["value", "value", "little", "repeat", "drop"]))
        if how == "value":
            facts[i] = {**facts[i], "value": draw(st.integers(-999, 999).map(str))}
        elif how == "little":
            facts[i] = {**facts[i], "value": decimal(Fraction(facts[i]["value"]) + Fraction(draw(st.sampled_from(["1", "-1", "0.1", "0.01"]))))}
        elif how == "repeat":
            facts.append(dict(facts[i]))
        else:
            facts.pop(i)
    for f in facts:  # how exact a value is said to be has no influence on the sums
        f.update(draw(st.sampled_from([{}, {}, {"decimals": "0"}, {"decimals": "-3"}, {"decimals": "INF"}, {"precision": "2"}])))
    ask = draw(st.lists(st.sampled_from(ctxs), max_size=2, unique=True)) if draw(st.integers(0, 3)) == 0 else []
    twins = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(ctxs), st.sampled_from(units), st.integers(-9, 9)), max_size=3))
    return {"ask": ask, "twins": twins, "names": names, "arcs": draw(st.permutations(arcs)) if arcs else [], "variants": variants, "facts": draw(st.permutations(facts)) if facts else [],
            "shuffle": draw(st.integers(0, 10**6)), "style": draw(st.sampled_from(["single", "mixed"]))}


small_decimals = st.builds(lambda s, a, b: f"{s}{a}.{b:02d}", st.sampled_from(["", "-"]), st.integers(0, 10**4), st.integers(0, 99))


def topo(n, arcs):
    out, left = [], set(range(n))
    while left:
        free = [x for x in sorted(left) if not any(a["to"][0] == x and a["from"] in left for a in arcs)]
        out += free
        left -= set(free)
    return out


def decimal(fr):
    """The exact decimal notation (all our denominators divide a power of ten)."""
    k = 0
    while (fr * 10**k).denominator != 1:
        k += 1
    v = int(fr * 10**k)
    if k == 0:
        return str(v)
    s = str(abs(v)).rjust(k + 1, "0")
    return ("-" if v < 0 else "") + s[:-k] + "." + s[-k:]


def strategy(tier):
    return case(tier)


def files_of(m):
    dims = [{"name": "Ax", "id": "d_Ax", "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem", "periodType": "duration", "abstract": "true"}]
    dims += [{"name": k, "id": "d_" + k, "type": "nonnum:domainItemType", "sg": "xbrli:item", "periodType": "duration", "abstract": "true"} for k in ("M1", "M2")]
    els = [{"name": x, "id": f"c{i}", "type": "xbrli:monetaryItemType", "sg": "xbrli:item", "periodType": "instant"} for i, x in enumerate(m["names"])]
    link = {"kind": "calculation", "role": "http://r/1", "nodes": list(range(len(m["names"]))), "arcs": m["arcs"], "isolated": [],
            "style": m["style"], "seq": "locs", "shuffle": m["shuffle"]}
    wl, _ = nets.serialise(link, lambda x: f"s.xsd#c{x}")
    ctxs = [{"id": f"k{i}", **{k: v[k] for k in ("scheme", "entity", "period")},
             "dims": ([{"kind": "explicit", "dim": "d:Ax", "value": "d:" + v["dim"]}] if v["dim"] else [])
             + ([{"kind": "typed", "dim": "d:Ty", "domain": "d:Dom", "value": v["typed"]}] if v.get("typed") else [])} for i, v in enumerate(m["variants"])]
    typed = {"name": "Ty", "id": "d_Ty", "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem", "periodType": "duration", "abstract": "true",
             "typedDomainRef": "#d_dom"}
    dom = {"name": "Dom", "id": "d_dom", "type": "xs:string"}
    return {
        "d.xsd": xw.schema_xml({"ns": "http://example.com/d", "prefix": "d", "elements": dims + [typed, dom]}, gen.SCHEMA_NS),
        "t.xsd": xw.schema_xml({"ns": "http://example.com/t", "prefix": "t", "elements": [{**e, "id": "t" + e["id"]} for e in els]}),
        "s.xsd": xw.schema_xml({"ns": "http://example.com/s", "prefix": "s", "elements": els, "linkbaseRefs": ["cal.xml"],
                                "roles": [{"uri": "http://r/1", "id": "r1", "def": "x", "usedOn": ["link:calculationLink"]}]}),
        "cal.xml": xw.linkbase_xml({"links": [wl]}),
        "i.xml": xw.instance_xml({"schemaRefs": ["s.xsd", "d.xsd", "t.xsd"],
                                  "nsmap": {p: f"http://example.com/{p}" for p in "sdt"},
                                  "contexts": ctxs, "units": [{"id": u, "num": [f"iso4217:{u}"]} for u in ("USD", "EUR")],
                                  "facts": [{"concept": "s:" + m["names"][f["c"]], "ctx": f"k{f['ctx']}", **{k: f.get(k) for k in ("unit", "value", "decimals", "precision")}}
                                            for f in m["facts"]]
                                  + [{"concept": "t:" + m["names"][c], "ctx": f"k{x}", "unit": u, "value": str(v)} for c, x, u, v in m["twins"]]}),
    }


def verdicts(m, facts):
    """(mismatches, lacking) over all facts of summation parents: lists of (parent, context)."""
    parents = sorted({a["from"] for a in m["arcs"]})
    bad, lack, many = [], [], []
    for p in parents:
        for f in facts:
            if f["c"] != p:
                continue
            total, ok = Fraction(0), True
            for a in m["arcs"]:
                if a["from"] == p:
                    found = [g for g in facts if g["c"] == a["to"][0] and (g["ctx"], g["unit"]) == (f["ctx"], f["unit"])]
                    if len(found) != 1:
                        (many if found else lack).append((p, f["ctx"]))
                        ok = False
                        break
                    total += Fraction(a["weight"]) * Fraction(found[0]["value"])
            if ok and total != Fraction(f["value"]):
                bad.append((p, f["ctx"], abs(total - Fraction(f["value"]))))
    return bad, lack, many


def ask(network, facts):
    try:
        return network.is_aggregation_consistent(facts)
    except ValueError:
        return "ValueError"


def check(m):
    filing = obs.open_files(files_of(m), "i.xml")
    with under_test("is_aggregation_consistent"):
        n = filing.get_component("http://r/1").get_calculation_network()
        if not m["arcs"]:
            expect(n is None or not n.get_roots(), "a calculation network without arcs")
            return set()
        facts = filing.get_all_facts()
        if m["ask"]:  # the facts can be any of those of the filing
            facts = [f for f in facts if f.get_context()._get_id() in [f"k{x}" for x in m["ask"]]]
        given = list(map(id, facts))
        got = ask(n, facts)
        expect_eq(list(map(id, facts)), given, "the list of facts given to is_aggregation_consistent, after it")
        again = ask(n, list(reversed(facts)))
    asked = [f for f in m["facts"] if not m["ask"] or f["ctx"] in m["ask"]]
    bad, lack, many = verdicts(m, asked)
    # which of the two a network with both problems gets, is not said
    allowed = ([False] if bad else []) + (["ValueError"] if lack or many else []) or [True]
    expect(got in allowed, f"is_aggregation_consistent gave {got}, expected {allowed}; sums differ at {bad}, no fact for a child at {lack}, several at {many}")
    expect(again in allowed, f"with the facts reversed: {again}, expected {allowed}")
    out = {"consistent"} if allowed == [True] else set()
    if allowed == [False]:
        out.add("inconsistent")
        if min(d for _, _, d in bad) <= Fraction(1, 10):
            out.add("off by a little")
        if len({f["ctx"] for f in asked}) > 1 and len({c for _, c, _ in bad}) == 1:
            out.add("only in one context")
        roots = {a["from"] for a in m["arcs"]} - {a["to"][0] for a in m["arcs"]}
        silent = {x for x in range(len(m["names"])) if not any(f["c"] == x for f in asked)}
        below = {a["to"][0] for a in m["arcs"] if a["from"] in silent}
        if all(p in below for p, _, _ in bad):
            out.add("inconsistent below a parent without facts")
        if all("precision" in f for f in asked if (f["c"], f["ctx"]) in {b[:2] for b in bad}):
            out.add("inconsistent only in totals with a precision")
    if any(f["unit"] is None for f in asked):
        out.add("without a unit")
    if any(m["variants"][f["ctx"]].get("typed") for f in asked):
        out.add("typed dimension")
    if m["ask"] and len(asked) < len(m["facts"]):
        out.add("only a part of the facts")
    if m["twins"] and asked:
        out.add("facts of namesakes")
    if lack:
        out.add("missing child fact")
    if many:
        out.add("several child facts")
    parents = {a["from"] for a in m["arcs"]}
    if any(not any(f["c"] == p for f in asked) for p in parents):
        out.add("parent without facts")
    cs = {f["ctx"] for f in asked}
    if len(cs) > 1:
        out.add("several contexts")
    if 0 in cs and cs & {3, 4, 6, 7} and allowed == [True]:
        out.add("child with a dimension more")
    if len({f["unit"] for f in asked}) > 1:
        out.add("several units")
    if any("." in f["value"] for f in asked):
        out.add("fractional values")
    if any(a["weight"].startswith("-") for a in m["arcs"]):
        out.add("negative weight")
    if any(a["to"][0] in parents for a in m["arcs"]):
        out.add("three levels")
    tos = [a["to"][0] for a in m["arcs"]]
    if len(set(tos)) < len(tos):
        out.add("several parents")
    return out


def nontrivial(m, labels):
    parents = {a["from"] for a in m["arcs"]}
    return len(m["arcs"]) >= 2 and sum(f["c"] in parents for f in m["facts"]) >= 2
