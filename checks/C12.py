"""C12  Components: one per declared role, with its definition and networks."""
from hypothesis import strategies as st

from lib import gen, nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C12"
QUICK = 8000
THOROUGH = 100000
RULE = ("1-6 roleTypes over 1-2 schemas (some declared in both), with or without definition, and links of any kind for declared and "
        "undeclared roles; non-trivial = at least two components and two networks")
MUST_HIT = ["declared twice", "no definition", "empty definition", "no networks", "all kinds", "undeclared role", "missing usedOn",
            "similar URIs", "several links of one role", "spare usedOn", "locators only",
            "ids: none", "ids: per file"]
KINDS = ["presentation", "calculation", "definition"]
URIS = nets.ROLES + ["http://example.com/role/A#x", "http://example.com/role/AB", "http://example.com/role/Ä%20b", "role", "http://example.com/role/A/"]
DEFS = st.one_of(st.none(), st.just(""), st.sampled_from(["00100 - Statement - Balance Sheet", "  padded  ", "A & B <C>", "Ümlaut — 中文", "two\nlines"]),
                 gen.xml_text)


@st.composite
def case(draw, tier):
    tax = draw(nets.taxonomy(2, 7, kinds=("concept", "text")))
    pool = nets.refs(tax)
    uris = draw(st.lists(st.sampled_from(URIS), min_size=1, max_size=6 if tier == "quick" else 9, unique=True))
    undeclared = draw(st.lists(st.sampled_from([u for u in URIS + ["http://example.com/none"] if u not in uris]), max_size=2, unique=True))
    roles, links = [], []
    for u in uris + undeclared:
        kinds = draw(st.lists(st.sampled_from(KINDS), max_size=3, unique=True))
        if u in uris:
            used = list(kinds)
            if draw(st.integers(0, 5)) == 0:
                used = draw(st.lists(st.sampled_from(KINDS), max_size=3, unique=True))
            elif draw(st.integers(0, 2)) == 0:
                used = list(KINDS)
            if draw(st.integers(0, 5)) == 0:
                used = used + [draw(st.sampled_from(["label", "reference", "footnote"]))]
            roles.append({"uri": u, "def": draw(DEFS), "used": draw(st.permutations(used)) if used else [],
                          "schemas": draw(st.sampled_from([[0], [0], [1], [0, 1], [1, 0]])) if len(tax["schemas"]) > 1 else [0]})
        for k in kinds:
            for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
                nodes = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=len(pool), unique_by=tuple))
                l = draw(nets.link(k, nodes, nets.ARCROLES[k][:1], max_arcs=4, attrs=nets.ATTRS[k], role=u, tree=True))
                if draw(st.integers(0, 5)) == 0:  # locators, and no arc
                    l = {**l, "arcs": [], "isolated": list(range(len(nodes)))}
                links.append(l)
    # two links of one role and kind must not make a cycle together
    kept = []
    for l in links:
        arcs = {(tuple(x["nodes"][a["from"]]), tuple(x["nodes"][t])) for x in kept + [l]
                if (x["role"], x["kind"]) == (l["role"], l["kind"]) for a in x["arcs"] for t in a["to"]}
        if not cyclic(arcs):
            kept.append(l)
    return {"tax": tax, "roles": draw(st.permutations(roles)), "undeclared": undeclared,
            "links": draw(st.permutations(kept)) if kept else [], "files": [draw(st.integers(0, 1)) for _ in kept],
            "pad": draw(st.booleans()), "ids": draw(st.sampled_from(["own", "own", "none", "some", "per file"]))}


def cyclic(arcs):
    left = set(arcs)
    while True:
        to = {t for _, t in left}
        nxt = {(f, t) for f, t in left if f in to}
        if nxt == left:
            return bool(left)
        left = nxt


def strategy(tier):
    return case(tier)


def expected(m):
    want = {}
    for r in m["roles"]:
        w = {"info": r["def"] or "", "nets": {}}
        for l in m["links"]:
            if l["role"] == r["uri"]:
                w["nets"].setdefault(l["kind"], set()).update(
                    (nets.clark(m["tax"], l["nodes"][a["from"]]), nets.clark(m["tax"], l["nodes"][t])) for a in l["arcs"] for t in a["to"])
        want[r["uri"]] = w
    return want


def edges(network):
    out = set()
    for n in network.get_all_nodes():
        for c in n.get_children():
            out.add((obs.clark(n.get_report_element().get_name()), obs.clark(c.get_report_element().get_name())))
    return out


def files_of(m):
    tax, files, books = m["tax"], {}, {}
    for l, k in zip(m["links"], m["files"]):
        books.setdefault(k, []).append(nets.serialise(l, lambda ref: nets.href(tax, ref))[0])
    for k, ls in books.items():
        files[f"net{k}.xml"] = xw.linkbase_xml({"links": ls})
    extra = {}
    pad = " " if m["pad"] else ""
    for i, r in enumerate(m["roles"]):
        for k in r["schemas"]:
            extra.setdefault(f"s{k}.xsd", {}).setdefault("roles", []).append(
                {"uri": r["uri"], "id": role_id(m, i, k), "def": r["def"], "usedOn": [f"{pad}link:{xw.LINK_TAGS[u][0]}{pad}" for u in r["used"]]})
    files.update(nets.tax_files(tax, **extra))
    files["i.xml"] = xw.instance_xml({"schemaRefs": [s["file"] for s in tax["schemas"]], "linkbaseRefs": [f"net{k}.xml" for k in sorted(books)]})
    return files


def role_id(m, i, k):
    """The id of a role declaration is optional, and unique in its own file only."""
    first = sum(1 for r in m["roles"][:i] if k in r["schemas"])
    return {"own": f"r{i}", "none": None, "some": f"r{i}" if i % 2 else None, "per file": f"role{first}"}[m["ids"]]


def check(m):
    filing = obs.open_files(files_of(m), "i.xml")
    want = expected(m)
    with under_test("reading the components"):
        comps = filing.get_all_components()
        expect_eq(sorted(c.get_URI() for c in comps), sorted(want), "URIs of the components")
        expect_eq(sorted(filing.get_all_component_uris()), sorted(want), "get_all_component_uris")
        for c in comps:
            w = want[c.get_URI()]
            expect_eq(c.get_info(), w["info"], f"definition of {c.get_URI()}")
            found = []
            for kind, get, has in [("presentation", c.get_presentation_network, c.has_presentation_network),
                                   ("calculation", c.get_calculation_network, c.has_calculation_network),
                                   ("definition", c.get_definition_network, c.has_definition_network)]:
                n = get()
                expect_eq(n is not None, kind in w["nets"], f"{c.get_URI()} has a {kind} network")
                expect_eq(bool(has()), n is not None, f"has_{kind}_network of {c.get_URI()}")
                if n is not None:
                    found.append(n)
                    expect_eq(obs.net_kind(n), kind, "kind of the network")
                    expect_eq(n.get_link_role(), c.get_URI(), "role of the network")
                    expect(not n.is_physical(), "a component's networks are logical")
                    expect_eq(edges(n), w["nets"][kind], f"arcs of the {kind} network of {c.get_URI()}")
            expect_eq(list(map(id, c.get_networks())), list(map(id, found)), "get_networks")
            expect(filing.get_component(c.get_URI()) is c, "get_component gives another component")
        for uri in m["undeclared"] + ["", "no such role"]:
            try:
                expect(filing.get_component(uri) is None, f"get_component({uri!r}) found a component")
            except ValueError:
                pass
    # a network whose roleType lacks the usedOn for it is worth a warning, and nothing else is
    missing = sum(1 for r in m["roles"] for k in want[r["uri"]]["nets"] if k not in r["used"])
    errs = obs.errors_of(filing)
    expect_eq([e.get_severity().name for e in errs], ["WARNING"] * missing, "problems reported (one for each missing usedOn)")
    for r in m["roles"]:
        for k in want[r["uri"]]["nets"]:
            if k not in r["used"]:
                expect(any(f"{r['uri']} has a {k} network" in e.get_message() for e in errs), f"no warning for the {k} network of {r['uri']}")
    out = {"ids: " + m["ids"]} if m["roles"] else set()
    if missing:
        out.add("missing usedOn")
    for r in m["roles"]:
        if len(r["schemas"]) > 1:
            out.add("declared twice")
        if r["def"] is None:
            out.add("no definition")
        if r["def"] == "":
            out.add("empty definition")
        n = want[r["uri"]]["nets"]
        out.add({0: "no networks", 3: "all kinds"}.get(len(n), "some networks"))
        if set(r["used"]) - set(n):
            out.add("spare usedOn")
    if any(not l["arcs"] for l in m["links"]):
        out.add("locators only")
    if any(l["role"] in m["undeclared"] for l in m["links"]):
        out.add("undeclared role")
    uris = [r["uri"] for r in m["roles"]]
    if any(a != b and a.lower().startswith(b.lower()) for a in uris for b in uris):
        out.add("similar URIs")
    rk = [(l["role"], l["kind"]) for l in m["links"]]
    if len(set(rk)) < len(rk):
        out.add("several links of one role")
    return out


def nontrivial(m, labels):
    return len(m["roles"]) >= 2 and len({(l["role"], l["kind"]) for l in m["links"]}) >= 2
