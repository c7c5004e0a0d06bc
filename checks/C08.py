"""C08  Presentation networks are the trees the arcs describe."""
from lib import nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C08"
QUICK = 10000
THOROUGH = 120000
RULE = ("presentation links for 1-3 roles over 2-8 elements (any kind) of 1-2 schemas, beside other links of the same roles; "
        "non-trivial = a network with at least three arcs")
MUST_HIT = ["several parents", "parallel arcs", "fan", "reordered siblings", "equal orders", "default order", "three levels",
            "several roots", "isolated", "several locators", "several roles", "folder", "id collision", "name collision",
            "other kinds"]


def strategy(tier):
    return nets.net_filing("presentation", tier)


def expected(m, l, order):
    def extra(a, x):
        if a is None:
            leaf = not any(b["from"] == x for b in l["arcs"])
            return {"order": 1.0, "preferred": None, "arcrole": "unknown" if leaf else xw.ARC_PARENT_CHILD}
        return {"order": float(a["order"] or 1), "preferred": a["preferredLabel"] or xw.STD_LABEL, "arcrole": a["arcrole"]}
    return nets.expected_trees(l["arcs"], order, lambda x: ["element", nets.clark(m["tax"], l["nodes"][x])], extra)


def check(m):
    files, locorders = nets.net_files(m)
    filing = obs.open_files(files, "i.xml")
    want = {l["role"]: expected(m, l, o) for l, o in zip(m["links"], locorders) if l["kind"] == "presentation"}
    with under_test("reading the presentation networks"):
        comps = {c.get_URI(): c for c in filing.get_all_components()}
        for role in m["roles"]:
            expect(role in comps, f"no component for role {role}")
            n = comps[role].get_presentation_network()
            if not want.get(role):
                expect(n is None or not n.get_roots(), f"role {role} has a presentation network")
                continue
            expect(n is not None, f"no presentation network for role {role}")
            expect(not n.is_physical(), "presentation networks are logical")
            expect_eq(obs.network_view(n)["roots"], want[role], f"presentation network of role {role}")
            nets.api_relations(n, "presentation", role)
    obs.expect_no_errors(filing)
    return nets.shape_labels(m, "presentation")


def nontrivial(m, labels):
    return any(len(l["arcs"]) >= 3 for l in m["links"] if l["kind"] == "presentation")
