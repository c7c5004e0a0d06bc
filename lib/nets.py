"""Generators, writers and reference models for taxonomies with networks."""
from hypothesis import strategies as st

from lib import gen, xw

KIND_DECL = {
    "concept": {"type": "xbrli:monetaryItemType", "sg": "xbrli:item"},
    "text": {"type": "xbrli:stringItemType", "sg": "xbrli:item"},
    "abstract": {"type": "xbrli:stringItemType", "sg": "xbrli:item", "abstract": "true"},
    "lineitems": {"type": "xbrli:stringItemType", "sg": "xbrli:item", "abstract": "true"},
    "hypercube": {"type": "xbrli:stringItemType", "sg": "xbrldt:hypercubeItem", "abstract": "true"},
    "dimension": {"type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem", "abstract": "true"},
    "member": {"type": "nonnum:domainItemType", "sg": "xbrli:item", "abstract": "true"},
}
ALL_KINDS = list(KIND_DECL)
ROLES = ["http://example.com/role/A", "http://example.com/role/B", "http://example.com/role/A/Details",
         "http://www.xbrl.org/2003/role/link", "urn:role:C", "http://example.com/role/a"]


@st.composite
def taxonomy(draw, min_el=2, max_el=9, kinds=tuple(ALL_KINDS), max_schemas=2):
    """{"schemas": [...]} with elements in 1..max_schemas schemas; ids and local names may collide across schemas."""
    nsch = draw(st.integers(1, max_schemas))
    uris = draw(st.lists(st.sampled_from(gen.NAMESPACES), min_size=nsch, max_size=nsch, unique=True))
    prefixes = draw(st.lists(st.sampled_from(gen.PREFIXES), min_size=nsch, max_size=nsch, unique=True))
    n = draw(st.integers(max(min_el, nsch), max(max_el, nsch)))
    names = draw(st.lists(gen.ncname().map(lambda s: s.replace("LineItems", "Lines")), min_size=n, max_size=n, unique=True))
    twin = nsch > 1 and draw(st.integers(0, 2)) == 0
    idstyle = draw(st.sampled_from(["name", "name", "counter", "pname"]))
    schemas = [{"file": f"s{k}.xsd", "ns": uris[k], "prefix": prefixes[k], "elements": []} for k in range(nsch)]
    for j in range(n):
        k = j if j < nsch else draw(st.integers(0, nsch - 1))
        kind = draw(st.sampled_from(kinds))
        name = names[j] + ("LineItems" if kind == "lineitems" else "")
        if twin and j == 1 and k == 1 and kind != "lineitems" and schemas[0]["elements"][0]["kind"] != "lineitems":
            name = schemas[0]["elements"][0]["name"]
        i = len(schemas[k]["elements"])
        eid = {"name": name, "counter": f"e{i}", "pname": f"{prefixes[k]}_{name}"}[idstyle]
        schemas[k]["elements"].append({"name": name, "id": eid, "kind": kind,
                                       "periodType": draw(st.sampled_from(["instant", "duration"])), **KIND_DECL[kind]})
    return {"schemas": schemas}


def refs(tax):
    return [[k, i] for k, s in enumerate(tax["schemas"]) for i in range(len(s["elements"]))]


def element(tax, ref):
    return tax["schemas"][ref[0]]["elements"][ref[1]]


def clark(tax, ref):
    return "{%s}%s" % (tax["schemas"][ref[0]]["ns"], element(tax, ref)["name"])


def href(tax, ref, prefix=""):
    return prefix + tax["schemas"][ref[0]]["file"] + "#" + element(tax, ref)["id"]


orders = st.sampled_from([None, "1", "2", "3", "1", "2", "10", "1.5", "0", "-1", "2.0", "0.25", "100000", "10.10", "3.14159"])
weights = st.sampled_from(["1", "-1", "1.0", "-1.0", "0.5", "-2", "100", "0.001", "-0.0625", "12345.75", "0.123456789"])
PREF = [None, None, "http://www.xbrl.org/2003/role/totalLabel", "http://www.xbrl.org/2003/role/periodStartLabel",
        "http://www.xbrl.org/2003/role/periodEndLabel", "http://example.com/role/custom"]


@st.composite
def link(draw, kind, nodes, arcroles, max_arcs=10, attrs=None, allow_isolated=True, tree=False, parallel=True, role=None):
    """A network over ``nodes`` (any JSON values): arcs form a DAG.

    arcs: {"from": node index, "to": [node index...], "arcrole", attributes}; a list of several targets is one XLink arc
    leading to a label shared by several locators.
    """
    n = len(nodes)
    perm = draw(st.permutations(range(n)))
    pairs, arcs, has_parent = set(), [], set()
    for _ in range(draw(st.integers(1 if n > 1 else 0, max_arcs))):
        if n < 2:
            break
        a = draw(st.integers(0, n - 2))
        b = draw(st.integers(a + 1, n - 1))
        f, t = perm[a], perm[b]
        ar = draw(st.sampled_from(arcroles))
        if tree and t in has_parent:
            continue
        if (f, t, ar) in pairs and not (parallel and draw(st.integers(0, 2)) == 0):
            continue
        arc = {"from": f, "to": [t], "arcrole": ar, "par": sum(x == (f, t, ar) for x in pairs) if False else 0}
        arc["par"] = sum(1 for x in arcs if x["from"] == f and t in x["to"] and x["arcrole"] == ar)
        pairs.add((f, t, ar))
        has_parent.add(t)
        if not tree and draw(st.integers(0, 5)) == 0:
            # a fan: further targets of the same XLink arc
            for c in draw(st.lists(st.integers(a + 1, n - 1), max_size=2, unique=True)):
                if perm[c] != t and (f, perm[c], ar) not in pairs:
                    arc["to"].append(perm[c])
                    pairs.add((f, perm[c], ar))
        for name, strat in (attrs or {}).items():
            arc[name] = draw(strat)
        arcs.append(arc)
    arcs = draw(st.permutations(arcs)) if arcs else arcs
    isolated = []
    if allow_isolated and draw(st.integers(0, 4)) == 0:
        used = {a["from"] for a in arcs} | {t for a in arcs for t in a["to"]}
        isolated = [x for x in range(n) if x not in used][:draw(st.integers(0, 2))]
    # one locator per element, one per use, or a mixture
    style = draw(st.sampled_from(["single", "single", "per use", "mixed"]))
    return {"kind": kind, "role": role if role is not None else draw(st.sampled_from(ROLES)),
            "nodes": nodes, "arcs": list(arcs), "isolated": isolated,
            "style": style, "seq": draw(st.sampled_from(["locs", "arcs first", "mixed"])),
            "shuffle": draw(st.randoms(use_true_random=False)).randint(0, 10**6)}


def serialise(l, href_of):
    """The writer model (lib.xw link) of a link model, and the locator order (list of node indices)."""
    import random
    rnd = random.Random(l["shuffle"])
    locs, arcs = [], []          # locs: (node, label)
    label_of = {}

    def single(x):
        if x not in label_of:
            label_of[x] = f"loc_{x}"
            locs.append((x, label_of[x]))
        return label_of[x]

    count = [0]

    def fresh(x):
        count[0] += 1
        lab = f"use_{count[0]}_{x}"
        locs.append((x, lab))
        return lab

    fans = {}
    for a in l["arcs"]:
        style = l["style"]
        own = style == "per use" or (style == "mixed" and rnd.random() < 0.5)
        f = fresh(a["from"]) if own else single(a["from"])
        if len(a["to"]) > 1:
            key = tuple(a["to"])
            if key in fans and not own and not a["par"]:
                t = fans[key]
            else:
                count[0] += 1
                t = f"fan{count[0]}"
                for x in a["to"]:
                    locs.append((x, t))
                if not own:
                    fans.setdefault(key, t)
        elif own or a["par"]:
            t = fresh(a["to"][0])
        else:
            t = single(a["to"][0])
        arcs.append({**a, "from": f, "to": t})
    for x in l["isolated"]:
        single(x)
    rnd.shuffle(locs)
    wl = {"kind": l["kind"], "role": l["role"], "locs": [{"href": href_of(l["nodes"][x]), "label": lab} for x, lab in locs],
          "arcs": arcs}
    order = [("loc", i) for i in range(len(locs))], [("arc", i) for i in range(len(arcs))]
    if l["seq"] == "locs":
        wl["sequence"] = order[0] + order[1]
    elif l["seq"] == "arcs first":
        wl["sequence"] = order[1] + order[0]
    else:
        rest_l, rest_a, seq = list(order[0]), list(order[1]), []
        while rest_l or rest_a:
            src = rest_l if (rest_l and (not rest_a or rnd.random() < 0.5)) else rest_a
            seq.append(src.pop(0))
        wl["sequence"] = seq
    first_loc = []
    for x, _ in locs:
        if x not in first_loc:
            first_loc.append(x)
    return wl, first_loc


def expected_trees(arcs, nodes_in_order, target, extra):
    """Roots (in locator order) of the forest the arcs describe.

    arcs: [{"from", "to": [..], "arcrole", "order", ...}] in document order; extra(arc or None) -> attributes of the node.
    """
    def children(x):
        res = []
        for pos, a in enumerate(arcs):
            if a["from"] == x:
                for t in sorted(a["to"], key=nodes_in_order.index):
                    res.append((float(a.get("order") or 1), pos, nodes_in_order.index(t), t, a))
        res.sort(key=lambda r: r[:3])
        return [node(t, a) for _, _, _, t, a in res]

    def node(x, a):
        v = {"to": target(x), "children": children(x)}
        v.update(extra(a, x))
        return v

    inner = {t for a in arcs for t in a["to"]}
    return [node(x, None) for x in nodes_in_order if x not in inner]


def tax_files(tax, **schema_extra):
    return {s["file"]: xw.schema_xml({**s, **schema_extra.get(s["file"], {})}, gen.SCHEMA_NS) for s in tax["schemas"]}


# ------------------------------------------------------------------ filings made of networks

USED_ON = {"presentation": "link:presentationLink", "calculation": "link:calculationLink", "definition": "link:definitionLink"}
ARCROLES = {"presentation": [xw.ARC_PARENT_CHILD], "calculation": [xw.ARC_SUMMATION],
            "definition": list(xw.DIM_ARCS.values()) + ["http://example.com/arcrole/own", "http://example.com/arcrole/own/part",
                                                          "http://example.com/arcrole/Own"]}
ATTRS = {"presentation": {"order": orders, "preferredLabel": st.sampled_from(PREF)},
         "calculation": {"order": orders, "weight": weights},
         "definition": {"order": orders}}


BIG = 40     # one case in so many is far larger than the others


@st.composite
def big_net_filing(draw, kind, kinds, attrs, tree=False):
    """As net_filing, with 15-40 elements in one network: chains, stars, trees.  Shape and attributes come from one seed."""
    import random
    rnd = random.Random(draw(st.integers(0, 2**32)))
    # the names, the order of which is not that of the elements in the schema
    nsch, n, kinds = rnd.choice([1, 2]), rnd.randint(15, 40), [k for k in kinds if k != "lineitems"] or list(kinds)
    schemas = [{"file": f"s{k}.xsd", "ns": gen.NAMESPACES[k], "prefix": gen.PREFIXES[k], "elements": []} for k in range(nsch)]
    for j in range(n):
        k = rnd.randrange(nsch) if j >= nsch else j
        name = f"{rnd.choice(gen.WORDS)}{j}".replace("LineItems", "Lines")
        kd = rnd.choice(kinds)
        schemas[k]["elements"].append({"name": name, "id": f"{gen.PREFIXES[k]}_{name}", "kind": kd,
                                       "periodType": rnd.choice(["instant", "duration"]), **KIND_DECL[kd]})
    tax = {"schemas": schemas}
    nodes = refs(tax)
    rnd.shuffle(nodes)
    shape = draw(st.sampled_from(["chain", "star", "tree", "tree", "stars"]))
    parent = {"chain": lambda j: j - 1, "star": lambda j: 0, "tree": lambda j: rnd.randrange(max(0, j - 6), j),
              "stars": lambda j: 0 if j < 4 else rnd.randrange(1, 4)}[shape]
    samples = {a: draw(st.lists(s, min_size=3, max_size=6)) for a, s in attrs.items()}
    if "order" in samples:
        samples["order"] += [str(j) for j in range(1, 2 * n)] + [f"{j}.5" for j in range(n)]
    arcs = [{"from": parent(j), "to": [j], "arcrole": rnd.choice(ARCROLES[kind]), "par": 0} for j in range(1, n)]
    if not tree:
        have = {(a["from"], a["to"][0]) for a in arcs}
        for _ in range(rnd.randrange(3)):
            a, b = sorted(rnd.sample(range(n), 2))
            if (a, b) not in have:
                have.add((a, b))
                arcs.append({"from": a, "to": [b], "arcrole": rnd.choice(ARCROLES[kind]), "par": 0})
    for a in arcs:
        a.update({name: rnd.choice(vs) for name, vs in samples.items()})
    rnd.shuffle(arcs)
    role = rnd.choice(ROLES)
    l = {"kind": kind, "role": role, "nodes": nodes, "arcs": arcs, "isolated": [], "style": rnd.choice(["single", "single", "mixed"]),
         "seq": rnd.choice(["locs", "arcs first", "mixed"]), "shuffle": rnd.randrange(10**6)}
    return {"tax": tax, "roles": [role], "links": [l], "files": [0], "folder": "", "dot": "",
            "from": rnd.choice(["schema", "instance"])}


@st.composite
def net_filing(draw, kind, tier, kinds=tuple(ALL_KINDS), max_roles=3, attrs=None, noise=True, tree=False, allow_isolated=True):
    """A taxonomy with links of ``kind`` for 1..max_roles roles, and perhaps links of the other kinds for the same roles."""
    if draw(st.integers(0, BIG)) == BIG:
        return draw(big_net_filing(kind, kinds, attrs or ATTRS[kind], tree))
    tax = draw(taxonomy(2, 12 if tier == "thorough" else 8, kinds=kinds))
    pool = refs(tax)
    roles = draw(st.lists(st.sampled_from(ROLES), min_size=1, max_size=max_roles, unique=True))
    links = []
    for r in roles:
        nodes = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=len(pool), unique_by=tuple))
        links.append(draw(link(kind, nodes, ARCROLES[kind], max_arcs=14 if tier == "thorough" else 9,
                               attrs=attrs or ATTRS[kind], role=r, tree=tree, allow_isolated=allow_isolated)))
    if noise:
        for other in ("presentation", "calculation", "definition"):
            if other == kind or draw(st.integers(0, 2)):
                continue
            ok = [x for x in pool if other != "calculation" or element(tax, x)["kind"] in ("concept", "text")]
            if len(ok) >= 2:
                nodes = draw(st.lists(st.sampled_from(ok), min_size=2, max_size=len(ok), unique_by=tuple))
                links.append(draw(link(other, nodes, ARCROLES[other], max_arcs=4, attrs=ATTRS[other],
                                       role=draw(st.sampled_from(roles)), allow_isolated=False)))
    return {"tax": tax, "roles": roles, "links": draw(st.permutations(links)),
            "files": [draw(st.integers(0, 2)) for _ in links], "folder": draw(st.sampled_from(["", "", "lb/"])),
            "dot": draw(st.sampled_from(["", "", "./"])), "from": draw(st.sampled_from(["schema", "instance"]))}


def net_files(m, entry="i.xml"):
    """(files, per link the locator order)."""
    tax, files, locorders = m["tax"], {}, []
    up = "../" if m["folder"] else m["dot"]
    books = {}
    for l, k in zip(m["links"], m["files"]):
        wl, first = serialise(l, lambda ref: href(tax, ref, up))
        locorders.append(first)
        books.setdefault(k, []).append(wl)
    names = []
    for k, ls in sorted(books.items()):
        name = f'{m["folder"]}net{k}.xml'
        names.append(name)
        files[name] = xw.linkbase_xml({"links": ls})
    extra = {"s0.xsd": {"roles": [{"uri": r, "id": f"r{i}", "def": f"{i} - Statement", "usedOn": list(USED_ON.values())}
                                  for i, r in enumerate(m["roles"])]}}
    inst = {"schemaRefs": [s["file"] for s in tax["schemas"]]}
    if m["from"] == "schema":
        extra["s0.xsd"]["linkbaseRefs"] = names
    else:
        inst["linkbaseRefs"] = names
    files.update(tax_files(tax, **extra))
    files[entry] = xw.instance_xml(inst)
    return files, locorders


def shape_labels(m, kind):
    """What kind of networks a case contains."""
    out = set()
    for l in m["links"]:
        if l["kind"] != kind:
            out.add("other kinds")
            continue
        parents, children = {}, {}
        for a in l["arcs"]:
            for t in a["to"]:
                parents.setdefault(t, []).append(a["from"])
                children.setdefault(a["from"], []).append((t, a))
        if any(len(set(p)) > 1 for p in parents.values()):
            out.add("several parents")
        if any(len(set(p)) < len(p) for p in parents.values()):
            out.add("parallel arcs")
        if any(len(a["to"]) > 1 for a in l["arcs"]):
            out.add("fan")
        for x, cs in children.items():
            os_ = [float(a.get("order") or 1) for _, a in cs]
            if os_ != sorted(os_):
                out.add("reordered siblings")
            if len(set(os_)) < len(os_):
                out.add("equal orders")
            if any(a.get("order") is None for _, a in cs):
                out.add("default order")

        def depth(x):
            return 1 + max([depth(t) for t, _ in children.get(x, [])], default=0)
        d = max([depth(x) for x in children], default=0)
        if d >= 3:
            out.add("three levels")
        roots = [x for x in children if x not in parents]
        if len(roots) > 1:
            out.add("several roots")
        if l["isolated"]:
            out.add("isolated")
        if l["style"] != "single" and l["arcs"]:
            out.add("several locators")
        if not l["arcs"]:
            out.add("no arcs")
    if any(len(l["arcs"]) > 14 for l in m["links"]):
        out.add("large")
    if sum(l["kind"] == kind for l in m["links"]) > 1:
        out.add("several roles")
    if m["folder"]:
        out.add("folder")
    names = [e["name"] for s in m["tax"]["schemas"] for e in s["elements"]]
    ids = [e["id"] for s in m["tax"]["schemas"] for e in s["elements"]]
    if len(set(ids)) < len(ids):
        out.add("id collision")
    if len(set(names)) < len(names):
        out.add("name collision")
    return out


def api_relations(network, kind, role):
    """Relations between the accessors of one network, whatever its content."""
    from lib import obs
    from lib.harness import expect, expect_eq, under_test

    with under_test("the accessors of a network"):
        expect_eq(network.get_link_role(), role, "link role of the network")
        expect_eq(obs.clark(network.get_link_name()), "{%s}%s" % (xw.LINK, xw.LINK_TAGS[kind][0]), "link name")
        seen = {}

        def walk(n):
            seen[id(n)] = n
            for c in n.get_children():
                walk(c)

        for r in network.get_roots():
            walk(r)
        nodes = network.get_all_nodes()
        expect_eq(sorted(map(id, nodes)), sorted(seen), "get_all_nodes are the nodes of the tree")
        first = [obs.clark(r.get_arc_name()) for r in network.get_roots()]
        named = network.get_arc_name()
        expect_eq(named and obs.clark(named), first[0] if first else None, "arc name of the network")
        expect_eq(sorted(network.get_arc_roles()), sorted({n.get_arc_role() for n in nodes}), "get_arc_roles")
        if len(network.get_roots()) == 1:
            expect(network.get_root() is network.get_roots()[0], "get_root")
        else:
            try:
                network.get_root()
                expect(False, "get_root of a network with several roots")
            except ValueError:
                pass
        for n in nodes:
            expect_eq(n.get_link_role(), role, "link role of a node")
            expect_eq(obs.clark(n.get_link_name()), "{%s}%s" % (xw.LINK, xw.LINK_TAGS[kind][0]), "link name of a node")
            expect_eq(n.is_leaf(), not n.get_children(), "is_leaf")
            below, todo = {}, list(n.get_children())
            while todo:
                c = todo.pop()
                below[id(c)] = c
                todo += c.get_children()
            expect_eq(sorted(map(id, n.get_all_descendants())), sorted(below), "get_all_descendants")
            arcname = obs.clark(n.get_arc_name())
            expect(arcname in ("{%s}%s" % (xw.LINK, xw.LINK_TAGS[kind][1]), "{%s}unknown" % xw.LINK), f"arc name {arcname}")
            for what, getter in [("report element", n.get_report_element), ("resource", n.get_resource), ("fact", n.get_fact)]:
                if n.points_to() != what:
                    try:
                        getter()
                        expect(False, f"node pointing to a {n.points_to()} gave a {what}")
                    except ValueError:
                        pass
