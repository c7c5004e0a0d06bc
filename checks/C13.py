"""C13  Splitting a network over several links or files changes nothing."""
from hypothesis import strategies as st

from lib import nets, obs
from lib.harness import expect, expect_eq, under_test

ID = "C13"
QUICK = 6000
THOROUGH = 80000
RULE = ("filings with networks of 1-3 roles are opened twice: one link per role and kind, and with the arcs dealt out over up to four "
        "links in up to three files (some of which have a locator for an element of the others); non-trivial = some node has children in two links, or is a child in one and a parent in another")
MUST_HIT = ["presentation", "calculation", "definition", "children in two links", "subtree in another link", "split across files",
            "four links", "reversed levels", "several roles", "equal orders", "parallel arcs apart",
            "lone locator"]
KINDS = {"presentation": tuple(nets.ALL_KINDS), "calculation": ("concept", "text"), "definition": tuple(nets.ALL_KINDS)}


@st.composite
def case(draw, tier):
    kind = draw(st.sampled_from(list(KINDS)))
    m = draw(nets.net_filing(kind, tier, kinds=KINDS[kind], max_roles=2, allow_isolated=False, noise=draw(st.booleans())))
    parts = []
    for l in m["links"]:
        # an arc twice is the same arc again; in one link it is two, in several it is one
        seen, arcs = set(), []
        for a in l["arcs"]:
            key = [(a["from"], t, a["arcrole"], float(a.get("order") or 1), float(a.get("weight") or 0), a.get("preferredLabel")) for t in a["to"]]
            if not seen & set(key):
                arcs.append(a)
                seen |= set(key)
        l["arcs"] = arcs
        n = draw(st.integers(1, 4))
        parts.append({"of": [draw(st.integers(0, n - 1)) for _ in arcs], "file": [draw(st.integers(0, 2)) for _ in range(n)],
                      "seed": [draw(st.integers(0, 10**6)) for _ in range(n)]})
    m["parts"] = parts
    # now and then a part has a locator of its own for an element that only the arcs of the other parts lead to or from
    m["lone"] = draw(st.lists(st.integers(0, 7), min_size=4, max_size=4)) if draw(st.integers(0, 2)) == 0 else []
    pieces = sum(len(set(p["of"])) for p in parts)
    m["order"] = draw(st.permutations(range(pieces))) if pieces else []
    return m


def strategy(tier):
    return case(tier)


def ends(arcs):
    return {x for a in arcs for x in [a["from"], *a["to"]]}


def pieces_of(m):
    out = []
    for l, p in zip(m["links"], m["parts"]):
        for k in sorted(set(p["of"])):
            arcs = [a for a, o in zip(l["arcs"], p["of"]) if o == k]
            elsewhere = sorted(ends(l["arcs"]) - ends(arcs))
            lone = [elsewhere[m["lone"][k] % len(elsewhere)]] if m["lone"] and elsewhere else []
            out.append(({**l, "arcs": arcs, "isolated": lone, "shuffle": p["seed"][k]}, p["file"][k]))
    return [out[i] for i in m["order"]]


def normal(network):
    v = obs.network_view(network)

    def ascending(n):
        os_ = [c["order"] for c in n["children"]]
        expect(os_ == sorted(os_), "children not in ascending order")
        for c in n["children"]:
            ascending(c)
    for r in v["roots"]:
        ascending(r)
        for k in ("order", "weight", "preferred", "arcrole"):
            r.pop(k, None)
    top = obs.sort_tree({"children": v["roots"]})
    return {"kind": v["kind"], "role": v["role"], "roots": top["children"]}


def view(files):
    filing = obs.open_files(files, "i.xml")
    out = {}
    with under_test("reading the networks"):
        for c in filing.get_all_components():
            for n in c.get_networks():
                key = (c.get_URI(), obs.net_kind(n))
                expect(key not in out, "two networks of one kind in a component")
                out[key] = {**normal(n), "arc roles": sorted(n.get_arc_roles())}
    obs.expect_no_errors(filing)
    return out


def check(m):
    whole = view(nets.net_files(m)[0])
    pieces = pieces_of(m)
    split = {**m, "links": [l for l, _ in pieces], "files": [f for _, f in pieces]}
    got = view(nets.net_files(split)[0])
    expect_eq(sorted(got), sorted(whole), "networks of the split filing")
    for key in whole:
        expect_eq(got[key], whole[key], f"the {key[1]} network of {key[0]} after splitting it (observed) and in one link (expected)")
    out = {"lone locator" for q, _ in pieces if q["isolated"]}
    for l, p in zip(m["links"], m["parts"]):
        parts = set(p["of"])
        if len(parts) > 1:
            out.add(l["kind"])
            if len({p["file"][k] for k in parts}) > 1:
                out.add("split across files")
        if len(parts) == 4:
            out.add("four links")
        par, chi, pair = {}, {}, {}
        for a, k in zip(l["arcs"], p["of"]):
            par.setdefault(a["from"], set()).add(k)
            for t in a["to"]:
                chi.setdefault(t, set()).add(k)
                pair.setdefault((a["from"], t), set()).add(k)
        if any(len(s) > 1 for s in par.values()):
            out.add("children in two links")
        if any(s - chi.get(x, set()) and chi.get(x, set()) - s for x, s in par.items()):
            out.add("subtree in another link")
        if any(len(s) > 1 for s in pair.values()):
            out.add("parallel arcs apart")
        where = {}
        for i, (q, _) in enumerate(pieces):
            if q["role"] == l["role"] and q["kind"] == l["kind"]:
                for a in q["arcs"]:
                    where.setdefault(("from", a["from"]), []).append(i)
                    for t in a["to"]:
                        where.setdefault(("to", t), []).append(i)
        if any(min(where[("from", x)]) < min(where[("to", x)]) for x in par if ("to", x) in where):
            out.add("reversed levels")
    out |= {x for x in nets.shape_labels(m, m["links"][0]["kind"]) if x in ("several roles", "equal orders")}
    return out


def nontrivial(m, labels):
    return "children in two links" in labels or "subtree in another link" in labels
