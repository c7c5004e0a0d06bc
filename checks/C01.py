"""C01  Every fact element becomes exactly one fact, unaltered."""
from collections import Counter

from hypothesis import strategies as st

from lib import gen, obs
from lib.harness import expect_eq, under_test

ID = "C01"
QUICK = 12000
THOROUGH = 60000
RULE = ("generated well-formed XML filings (1-2 schemas, 1-4 contexts, 0-3 units, 0-12 facts, ids present or absent, "
        "any XML text as value, some of them inside tuples); non-trivial = at least 2 facts and at least one of: a fact without id, two facts "
        "sharing concept and context, markup or non-ASCII characters in a value, an instance prefix that differs "
        "from the schema's")
MUST_HIT = ["fact without id", "same concept and context", "special characters", "other prefix", "nil fact",
            "decimals", "tuple", "nested tuples", "nil=1", "nil=0", "nil=false"]


TUPLES = ["TupleOne", "Tuple.Two"]


@st.composite
def _case(draw):
    m = draw(gen.fact_filing(max_facts=12, decimals=True, big=True))
    for f in m["facts"]:
        f["xsinil"] = draw(st.sampled_from(["true", "1"] if f["nil"] else [None, None, None, "false", "0"]))
    m["tuples"] = []
    n = len(m["facts"])
    if n and draw(st.integers(0, 3)) == 0:
        a, b = sorted([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
        m["tuples"].append([draw(st.sampled_from(TUPLES)), a, b])
        if draw(st.booleans()):
            m["tuples"].append([draw(st.sampled_from(TUPLES)), draw(st.integers(0, a)), draw(st.integers(b, n - 1))])
        m["schemas"][0]["elements"] += [{"name": t, "id": f"tuple_{i}", "sg": "xbrli:tuple", "nillable": "true"} for i, t in enumerate(TUPLES)]
    return m


def strategy(tier):
    return _case()


def _num(x):
    return None if x is None else float(x)


def check(m):
    labels = set()
    filing = obs.open_files(gen.files_of(m), "i.xml")
    got = obs.facts_view(filing)
    want = [gen.expected_fact(m, f) for f in m["facts"]]
    keep = ("id", "value", "concept")
    expect_eq(sorted(str([g[k] for k in keep]) for g in got),
              sorted(str([w[k] for k in keep]) for w in want),
              "the facts of the filing are not the fact elements of the instance (id, value, concept)")
    obs.expect_no_errors(filing)
    # accuracy attributes, fact by fact (facts with an id can be told apart)
    with under_test("reading decimals and precision"):
        acc = Counter((f.get_id(), str(f), _num(f.get_decimals()), _num(f.get_precision()))
                      for f in filing.get_all_facts())
    wacc = Counter((f["id"], "" if f["nil"] else f["value"], _num(f.get("decimals")), _num(f.get("precision")))
                   for f in m["facts"])
    expect_eq(acc, wacc, "decimals/precision of the facts")
    # reading is repeatable
    expect_eq(obs.facts_view(filing), got, "reading the facts a second time gives something else")

    keys = Counter((tuple(f["concept"]), f["ctx"]) for f in m["facts"])
    if any(f["id"] is None for f in m["facts"]):
        labels.add("fact without id")
    if any(v > 1 for v in keys.values()):
        labels.add("same concept and context")
    if any(set(f["value"]) & set("<>&\"'") or not f["value"].isascii() for f in m["facts"]):
        labels.add("special characters")
    if m["iprefixes"] != [s["prefix"] for s in m["schemas"]]:
        labels.add("other prefix")
    if any(f["nil"] for f in m["facts"]):
        labels.add("nil fact")
    if any("decimals" in f or "precision" in f for f in m["facts"]):
        labels.add("decimals")
    if m["tuples"]:
        labels.add("tuple")
        if len(m["tuples"]) > 1:
            labels.add("nested tuples")
    for f in m["facts"]:
        if f["xsinil"] in ("1", "0", "false"):
            labels.add("nil=" + f["xsinil"])
    labels.add(f"{min(len(m['facts']), 5)}{'+' if len(m['facts']) >= 5 else ''} facts")
    return labels


def nontrivial(m, labels):
    return len(m["facts"]) >= 2 and bool(
        labels & {"fact without id", "same concept and context", "special characters", "other prefix"})
