"""C14  Balance consistency is decided by the sign rule."""
from hypothesis import strategies as st

from lib import nets, obs
from lib.harness import expect, expect_eq, under_test

ID = "C14"
QUICK = 8000
THOROUGH = 100000
RULE = ("calculation networks of 1-3 roles over concepts with and without balance; mostly consistent ones, some with one deviation; "
        "non-trivial = a network with two arcs or more of which both verdicts are possible by changing one weight")
MUST_HIT = ["consistent", "inconsistent", "no balance at a leaf", "no balance at a parent", "negative, same balance", "positive, other balance",
            "only below the first level", "only under the last root", "several parents", "credit root", "debit root", "fractional"]
MAG = st.sampled_from(["1", "1", "1.0", "0.5", "2", "100", "0.001", "1e-3"])


@st.composite
def case(draw, tier):
    m = draw(nets.net_filing("calculation", tier, kinds=("concept",), max_roles=2, noise=False, allow_isolated=False,
                             tree=draw(st.booleans())))
    for s in m["tax"]["schemas"]:
        for e in s["elements"]:
            e["balance"] = draw(st.sampled_from(["debit", "credit"]))
    if draw(st.integers(0, 3)) == 0:
        ref = draw(st.sampled_from(nets.refs(m["tax"])))
        nets.element(m["tax"], ref)["balance"] = None
    bal = lambda l, x: nets.element(m["tax"], l["nodes"][x])["balance"]
    for l in m["links"]:
        for a in l["arcs"]:
            a["to"] = a["to"][:1]
            same = bal(l, a["from"]) == bal(l, a["to"][0])
            a["weight"] = ("" if same else "-") + draw(MAG)
    flips = draw(st.sampled_from([0, 0, 1, 1, 2]))
    for _ in range(flips):
        arcs = [a for l in m["links"] for a in l["arcs"]]
        if arcs:
            a = draw(st.sampled_from(arcs))
            a["weight"] = a["weight"][1:] if a["weight"][0] == "-" else "-" + a["weight"]
    return m


def strategy(tier):
    return case(tier)


def verdict(m, l):
    """(consistent, reasons)"""
    reasons = []
    bal = lambda x: nets.element(m["tax"], l["nodes"][x])["balance"]
    parents = {a["from"] for a in l["arcs"]}
    children = {t for a in l["arcs"] for t in a["to"]}
    for x in parents | children:
        if bal(x) is None:
            reasons.append(("no balance at a parent" if x in parents else "no balance at a leaf", x))
    for a in l["arcs"]:
        p, c, w = bal(a["from"]), bal(a["to"][0]), float(a["weight"])
        if p is None or c is None:
            continue
        if p == c and w < 0:
            reasons.append(("negative, same balance", a["from"]))
        if p != c and w > 0:
            reasons.append(("positive, other balance", a["from"]))
    return not reasons, reasons


def check(m):
    files, locorders = nets.net_files(m)
    filing = obs.open_files(files, "i.xml")
    out = {x for x in nets.shape_labels(m, "calculation") if x == "several parents"}
    with under_test("is_balance_consistent"):
        for l, order in zip(m["links"], locorders):
            if not l["arcs"]:
                continue
            n = filing.get_component(l["role"]).get_calculation_network()
            expect(n is not None, f"no calculation network for {l['role']}")
            want, reasons = verdict(m, l)
            got = n.is_balance_consistent()
            expect_eq(got, want, f"is_balance_consistent of {l['role']} ({reasons})")
            expect_eq(n.is_balance_consistent(), got, "asking again")
            inner = {t for a in l["arcs"] for t in a["to"]}
            out.add("consistent" if want else "inconsistent")
            out |= {r for r, _ in reasons}
            if reasons and all(x in inner for _, x in reasons):
                out.add("only below the first level")
            roots = [x for x in order if x not in inner]
            if reasons and len(roots) > 1 and all(x == roots[-1] for _, x in reasons):
                out.add("only under the last root")
            for x in roots:
                out.add(f"{nets.element(m['tax'], l['nodes'][x])['balance']} root")
            if any(abs(float(a["weight"])) not in (1.0, 2.0, 100.0) for a in l["arcs"]):
                out.add("fractional")
    return out


def nontrivial(m, labels):
    return any(len(l["arcs"]) >= 2 and sum(r != "no balance" for r, _ in verdict(m, l)[1]) <= 1 for l in m["links"])
