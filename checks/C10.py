"""C10  Definition networks: one per arc role, plus the combined one."""
from lib import nets, obs
from lib.harness import expect, expect_eq, under_test

ID = "C10"
QUICK = 10000
THOROUGH = 120000
RULE = ("definition links for 1-3 roles over 2-8 elements and 8 arc roles, beside other links of the same roles; "
        "non-trivial = a network with at least three arcs of two arc roles")
MUST_HIT = ["several parents", "parallel arcs", "fan", "reordered siblings", "equal orders", "default order", "three levels",
            "several roots", "several locators", "several roles", "id collision", "name collision", "other kinds",
            "same pair, other arc role", "root of one arc role only"]


def strategy(tier):
    return nets.net_filing("definition", tier, allow_isolated=False)


def forest(m, l, order, arcs):
    def extra(a, x):
        if a is None:
            return {"order": None, "arcrole": next(b["arcrole"] for b in arcs if b["from"] == x)}
        return {"order": float(a["order"] or 1), "arcrole": a["arcrole"]}
    involved = {a["from"] for a in arcs} | {t for a in arcs for t in a["to"]}
    return nets.expected_trees(arcs, [x for x in order if x in involved],
                               lambda x: ["element", nets.clark(m["tax"], l["nodes"][x])], extra)


def view(n):
    v = obs.network_view(n)["roots"]
    for r in v:  # no arc leads to a root, so its own order means nothing
        r["order"] = None
    return v


def check(m):
    labels = nets.shape_labels(m, "definition")
    files, locorders = nets.net_files(m)
    filing = obs.open_files(files, "i.xml")
    logical, physical = {}, {}
    for l, o in zip(m["links"], locorders):
        if l["kind"] == "definition" and l["arcs"]:
            logical[l["role"]] = forest(m, l, o, l["arcs"])
            for ar in {a["arcrole"] for a in l["arcs"]}:
                physical[(l["role"], ar)] = forest(m, l, o, [a for a in l["arcs"] if a["arcrole"] == ar])
            pairs = {}
            for a in l["arcs"]:
                for t in a["to"]:
                    pairs.setdefault((a["from"], t), set()).add(a["arcrole"])
            if any(len(p) > 1 for p in pairs.values()):
                labels.add("same pair, other arc role")
            if len({r["to"][1] for ar in {a["arcrole"] for a in l["arcs"]} for r in physical[(l["role"], ar)]}) > len(logical[l["role"]]):
                labels.add("root of one arc role only")
    with under_test("reading the definition networks"):
        comps = {c.get_URI(): c for c in filing.get_all_components()}
        for role in m["roles"]:
            expect(role in comps, f"no component for role {role}")
            n = comps[role].get_definition_network()
            if role not in logical:
                expect(n is None or not n.get_roots(), f"role {role} has a definition network")
                continue
            expect(n is not None, f"no definition network for role {role}")
            expect(not n.is_physical(), "the definition network of a component is the combined one")
            expect_eq(view(n), logical[role], f"definition network of role {role}")
            nets.api_relations(n, "definition", role)
        got = {}
        for n in filing.get_all_physical_networks():
            expect(n.is_physical(), "get_all_physical_networks gave a logical network")
            if obs.net_kind(n) == "definition":
                ars = {r.get_arc_role() for r in n.get_roots()}
                expect(len(ars) == 1, f"a physical network has the arc roles {ars}")
                expect(len(n.get_arc_roles()) == 1, "a physical network has several arc roles", arcroles=n.get_arc_roles())
                key = (n.get_link_role(), ars.pop())
                expect(key not in got, f"two physical networks for {key}")
                got[key] = view(n)
                nets.api_relations(n, "definition", n.get_link_role())
        expect_eq(sorted(got), sorted(physical), "link and arc roles of the physical definition networks")
        for key in got:
            expect_eq(got[key], physical[key], f"physical definition network of {key}")
    obs.expect_no_errors(filing)
    return labels


def nontrivial(m, labels):
    return any(len(l["arcs"]) >= 3 and len({a["arcrole"] for a in l["arcs"]}) >= 2 for l in m["links"] if l["kind"] == "definition")
