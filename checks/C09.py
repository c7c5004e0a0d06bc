"""C09  Calculation networks keep every summand with its weight."""
from lib import nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C09"
QUICK = 10000
THOROUGH = 120000
RULE = ("calculation links for 1-3 roles over 2-8 concepts of 1-2 schemas, beside other links of the same roles; "
        "non-trivial = a network with at least three arcs")
MUST_HIT = ["several parents", "parallel arcs", "fan", "reordered siblings", "equal orders", "default order", "three levels",
            "several roots", "several locators", "several roles", "id collision", "name collision", "other kinds",
            "negative weight", "fractional weight"]


def strategy(tier):
    return nets.net_filing("calculation", tier, kinds=("concept", "concept", "text"), allow_isolated=False)


def expected(m, l, order):
    def extra(a, x):
        if a is None:
            return {"order": None, "weight": None, "arcrole": xw.ARC_SUMMATION}
        return {"order": float(a["order"] or 1), "weight": float(a["weight"]), "arcrole": a["arcrole"]}
    return nets.expected_trees(l["arcs"], order, lambda x: ["element", nets.clark(m["tax"], l["nodes"][x])], extra)


def check(m):
    files, locorders = nets.net_files(m)
    filing = obs.open_files(files, "i.xml")
    want = {l["role"]: expected(m, l, o) for l, o in zip(m["links"], locorders) if l["kind"] == "calculation"}
    with under_test("reading the calculation networks"):
        comps = {c.get_URI(): c for c in filing.get_all_components()}
        for role in m["roles"]:
            expect(role in comps, f"no component for role {role}")
            n = comps[role].get_calculation_network()
            if not want.get(role):
                expect(n is None or not n.get_roots(), f"role {role} has a calculation network")
                continue
            expect(n is not None, f"no calculation network for role {role}")
            view = obs.network_view(n)["roots"]
            for r in view:  # no arc leads to a root, so its own weight and order mean nothing
                r["order"] = r["weight"] = None
            expect_eq(view, want[role], f"calculation network of role {role}")
            nets.api_relations(n, "calculation", role)
            for node in n.get_all_nodes():
                expect(node.get_concept() is node.get_report_element(), "get_concept and get_report_element differ")
    obs.expect_no_errors(filing)
    labels = nets.shape_labels(m, "calculation")
    for l in m["links"]:
        for a in l["arcs"]:
            w = float(a.get("weight") or 1)
            if w < 0:
                labels.add("negative weight")
            if w != int(w):
                labels.add("fractional weight")
    return labels


def nontrivial(m, labels):
    return any(len(l["arcs"]) >= 3 for l in m["links"] if l["kind"] == "calculation")
