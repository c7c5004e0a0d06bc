"""C20  Inline footnotes attach to the facts their relationships name."""
from hypothesis import strategies as st

from lib import gen, ix, nets, obs, xw
from lib.harness import expect_eq, under_test
from checks.C18 import flat, text

ID = "C20"
QUICK = 5000
THOROUGH = 60000
RULE = ("inline pages with 1-9 facts (text and numbers, also hidden, also inside a footnote), 0-4 ix:footnote elements (also inside another one, text with "
        "markup, exclusions and continuations, language own or inherited, default and custom role, title) and 0-6 ix:relationship "
        "elements with 1-3 sources and 1-3 targets (footnotes, or later facts; also chains of facts), link roles, arc roles and orders; "
        "non-trivial = two relationships that reach a footnote")
MUST_HIT = ["many sources", "many targets", "shared footnote", "fact to fact", "chain", "custom role", "no role", "custom arc role",
            "custom link role", "order", "order 0", "orders differ from the document", "continuation", "exclude", "markup", "inherited language",
            "title", "hidden footnote", "fact inside a footnote", "footnote inside a footnote", "unused footnote", "deep chain", "no relationship", "same network twice", "ids on lines"]
ROLES = [None, None, "http://www.xbrl.org/2003/role/footnote", "http://example.com/role/foot"]
# (some are the beginning of others)
ARCROLES = [None, None, xw.ARC_FACT_FOOTNOTE, "http://example.com/arcrole/note", "http://example.com/arcrole/note",
            "http://example.com/arcrole/note-2", "http://example.com/arcrole/Note"]
LINKROLES = [None, None, xw.STD_LINK_ROLE, "http://example.com/role/A", "http://example.com/role/B"]
FACT_FACT = "http://www.xbrl.org/2009/arcrole/fact-explanatoryFact"


def nodes(depth):
    opts = [text, text]
    if depth > 0:
        kids = st.lists(st.deferred(lambda: nodes(depth - 1)), max_size=3)
        opts += [st.builds(lambda t, c: {"el": t, "c": c}, st.sampled_from(["b", "i", "span", "p"]), kids),
                 st.builds(lambda c: {"ix": "exclude", "c": c}, kids), st.just({"comment": " note "})]
    return st.one_of(opts)


@st.composite
def _case(draw, tier):
    n = draw(st.integers(1, 6))
    deep = draw(st.integers(0, 9)) == 0
    if deep:
        n = draw(st.integers(5, 9))
    nfoot = draw(st.integers(0, 4))
    facts = [{"num": draw(st.booleans()), "lay": draw(ix.layout_of_fact),
              "infoot": draw(st.integers(0, nfoot - 1)) if nfoot and draw(st.integers(0, 7)) == 0 else None} for _ in range(n)]
    feet = [{"parts": [draw(st.lists(nodes(draw(st.integers(0, 2))), max_size=4)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))],
             "lang": draw(st.sampled_from([None, None, "en", "de", "fr-CH"])), "role": draw(st.sampled_from(ROLES)),
             "title": draw(st.sampled_from([None, None, "A title", "<&>", ""])), "lay": draw(st.integers(0, len(ix.WRAPPERS))),
             "wraplang": draw(st.sampled_from([None, None, "it"])),
             "infoot": draw(st.integers(0, i - 1)) if i and draw(st.integers(0, 6)) == 0 else None} for i in range(nfoot)]
    rels, taken = [], set()
    if deep:
        # one fact explains the next one, and so on, down to a footnote
        a = draw(st.sampled_from(LINKROLES))
        for i in range(n - (0 if nfoot else 1)):
            t = f"f{i + 1}" if i + 1 < n else "n0"
            taken.add((a or xw.STD_LINK_ROLE, FACT_FACT, i, t))
            rels.append({"from": [f"f{i}"], "to": [t], "linkRole": a, "arcrole": FACT_FACT, "order": draw(st.sampled_from([None, "1", "2"])), "sep": " "})
        rels = list(draw(st.permutations(rels)))
    for _ in range(draw(st.integers(0, 6))):
        a = draw(st.sampled_from(LINKROLES))
        ff = not nfoot or (n > 1 and draw(st.integers(0, 4)) == 0)
        if ff:
            if n < 2:
                continue
            cut = draw(st.integers(1, n - 1))
            s = draw(st.lists(st.integers(0, cut - 1), min_size=1, max_size=3, unique=True))
            t = [f"f{i}" for i in draw(st.lists(st.integers(cut, n - 1), min_size=1, max_size=3, unique=True))]
            r = draw(st.sampled_from([FACT_FACT, FACT_FACT, None, ARCROLES[3]]))
        else:
            s = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
            t = [f"n{i}" for i in draw(st.lists(st.integers(0, nfoot - 1), min_size=1, max_size=3, unique=True))]
            r = draw(st.sampled_from(ARCROLES))
        edges = {(a or xw.STD_LINK_ROLE, r or xw.ARC_FACT_FOOTNOTE, x, y) for x in s for y in t}
        if edges & taken:
            continue
        taken |= edges
        rels.append({"from": [f"f{i}" for i in s], "to": t, "linkRole": a, "arcrole": r,
                     "order": draw(st.sampled_from([None, None, None, "1", "2", "0", "1.5", "10", "-1"])),
                     "sep": draw(st.sampled_from([" ", " ", " ", "\n  ", "\t"]))})
    return {"facts": facts, "feet": feet, "rels": rels, "pagelang": draw(st.sampled_from(["en", "en", "nl"])),
            "order": draw(st.permutations([["f", i] for i in range(n)] + [["n", i] for i in range(nfoot)]
                                          + [["x", i, k] for i, x in enumerate(feet) for k in range(1, len(x["parts"]))])),
            "roleRefs": draw(st.booleans()), "layout": draw(st.permutations(["relationship", "context", "unit"]))}


def strategy(tier):
    return _case(tier)


def _page(m, labels):
    def fact(i):
        f = m["facts"][i]
        a = {"id": f"f{i}", "contextRef": "c0", "name": "t:C1" if f["num"] else "t:C0"}
        return ({"ix": "nonFraction", "a": {**a, "unitRef": "usd", "format": "ixt:num-dot-decimal"}, "c": [str(i)]} if f["num"]
                else {"ix": "nonNumeric", "a": a, "c": [f"text {i}"]})

    def inner(n, k):
        c = list(m["feet"][n]["parts"][k])
        if k == 0:
            for i, f in enumerate(m["facts"]):
                if f["infoot"] == n:
                    c.append(fact(i))
                    labels.add("fact inside a footnote")
            for i, x in enumerate(m["feet"]):
                if x["infoot"] == n:
                    c.append(block(i, 0))
                    labels.add("footnote inside a footnote")
        return c

    def block(n, k):
        x = m["feet"][n]
        a = {"id": f"n{n}" if k == 0 else f"x{n}_{k}"}
        if k == 0:
            a.update({key: v for key, v in [("footnoteRole", x["role"]), ("title", x["title"]), ("xml:lang", x["lang"])] if v is not None})
        if k + 1 < len(x["parts"]):
            a["continuedAt"] = f"x{n}_{k + 1}"
        return {"ix": "footnote" if k == 0 else "continuation", "a": a, "c": inner(n, k)}

    body, hidden = [], []
    for kind, i, *k in m["order"]:
        if kind == "f":
            f = m["facts"][i]
            if f["infoot"] is None:
                if ix.is_hidden(f["lay"]):
                    hidden.append(fact(i))
                else:
                    body.append(ix.place(fact(i), f["lay"]))
        elif kind == "n" and m["feet"][i]["infoot"] is not None:
            continue
        elif kind == "n" and m["feet"][i]["lay"] == len(ix.WRAPPERS):
            hidden.append(block(i, 0))
            labels.add("hidden footnote")
        else:
            b = ix.wrap(block(i, k[0] if k else 0), m["feet"][i]["lay"])
            if kind == "n" and m["feet"][i]["wraplang"]:
                b["a"] = {"xml:lang": m["feet"][i]["wraplang"]}
            body.append(b)
    raw = ""
    if m["roleRefs"]:
        raw = ('<link:roleRef roleURI="http://example.com/role/A" xlink:type="simple" xlink:href="t.xsd#A"/>'
               '<link:arcroleRef arcroleURI="http://example.com/arcrole/note" xlink:type="simple" xlink:href="t.xsd#note"/>')
        labels.add("role references")
    return {"ns": {"t": "http://example.com/tax", "ixt": ix.TR[5]}, "refs": [["schema", "t.xsd"]], "contexts": ix.CTX, "units": ix.UNIT,
            "lang": m["pagelang"], "hidden": hidden, "body": body, "layout": m["layout"], "raw_resources": raw,
            "relationships": [{**r, "from": r["sep"].join(r["from"]), "to": r["sep"].join(r["to"])} for r in m["rels"]]}, inner


def check(m):
    labels = set()
    tax = ix.simple_taxonomy(["xbrli:stringItemType", "xbrli:decimalItemType"])
    tax["roles"] = [{"uri": "http://example.com/role/A", "id": "A", "usedOn": ["link:footnoteLink"]}]
    page, inner = _page(m, labels)
    view = {f"f{i}": ["fact", f"f{i}"] for i in range(len(m["facts"]))}
    for i, x in enumerate(m["feet"]):
        ns = [n for k in range(len(x["parts"])) for n in inner(i, k)]
        langs, o = [], x
        while True:
            langs.append(o["lang"])
            if o["infoot"] is None:
                break
            o = m["feet"][o["infoot"]]
        langs += [None if o["lay"] == len(ix.WRAPPERS) else o["wraplang"], m["pagelang"]]
        lang = next(a for a in langs if a)
        view[f"n{i}"] = ["footnote", x["role"] or "http://www.xbrl.org/2003/role/footnote", flat(ns), lang, x["title"], f"n{i}"]
        for lab, b in [("continuation", len(x["parts"]) > 1), ("inherited language", x["lang"] is None), ("title", x["title"]),
                       ("no role", x["role"] is None), ("custom role", x["role"] and "example" in x["role"]),
                       ("exclude", any(isinstance(n, dict) and n.get("ix") == "exclude" for n in ns)),
                       ("markup", any(isinstance(n, dict) and "el" in n for n in ns))]:
            if b:
                labels.add(lab)
    arcs, groups = {}, []
    for r in m["rels"]:
        key = (r["linkRole"] or xw.STD_LINK_ROLE, r["arcrole"] or xw.ARC_FACT_FOOTNOTE)
        groups.append(key)
        for a in r["from"]:
            for b in r["to"]:
                arcs.setdefault(key, []).append((a, b, float(r["order"] or 1)))

    def tree(key, x, order):
        kids = sorted(([o, b] for a, b, o in arcs[key] if a == x))
        return {"to": view[x], "order": order, "children": [tree(key, b, o) for o, b in kids]}

    want = []
    for key, es in arcs.items():
        tos = {b for _, b, _ in es}
        want.append([*key, sorted((norm(tree(key, a, 1.0)) for a in {a for a, _, _ in es} - tos), key=str)])
    filing = obs.open_files({"t.xsd": xw.schema_xml(tax), "p.xhtml": ix.page_xml(page)}, "p.xhtml",
                            "opening a well-formed inline filing with footnotes")
    got = []
    with under_test("reading the footnote networks"):
        for n in filing.get_all_physical_networks():
            if obs.net_kind(n) != "footnote":
                continue
            nets.api_relations(n, "footnote", n.get_link_role())
            arcroles = n.get_arc_roles()
            expect_eq(len(arcroles), 1, f"the number of arc roles of the network {arcroles}")
            got.append([n.get_link_role(), arcroles[0], sorted((norm(node(r)) for r in n.get_roots()), key=str)])
    expect_eq(sorted(got, key=str), sorted(want, key=str), "the footnote networks [link role, arc role, roots]")
    with under_test("the facts"):
        expect_eq(sorted([f.get_id(), str(f)] for f in filing.get_all_facts()),
                  sorted([f"f{i}", str(i) if f["num"] else f"text {i}"] for i, f in enumerate(m["facts"])), "the facts")
    obs.expect_no_errors(filing, "a well-formed inline filing with footnotes")
    used = [t for r in m["rels"] for t in r["to"]]
    for lab, b in [("many sources", any(len(r["from"]) > 1 for r in m["rels"])), ("many targets", any(len(r["to"]) > 1 for r in m["rels"])),
                   ("shared footnote", any(used.count(t) > 1 for t in used)), ("no relationship", not m["rels"]),
                   ("fact to fact", any(t[0] == "f" for t in used)),
                   ("chain", any(b in {a for a, _, _ in es} for es in arcs.values() for _, b, _ in es)),
                   ("deep chain", any(depth(es) > 4 for es in arcs.values())),
                   ("custom arc role", any("example" in (r["arcrole"] or "") for r in m["rels"])),
                   ("custom link role", any("example" in (r["linkRole"] or "") for r in m["rels"])),
                   ("order", any(r["order"] for r in m["rels"])), ("order 0", any(r["order"] == "0" for r in m["rels"])),
                   ("orders differ from the document", any([o for x, _, o in es if x == a] != sorted(o for x, _, o in es if x == a)
                                                           for es in arcs.values() for a, _, _ in es)),
                   ("unused footnote", any(f"n{i}" not in used for i in range(len(m["feet"])))),
                   ("same network twice", len(set(groups)) < len(groups)),
                   ("ids on lines", any(r["sep"] != " " and (len(r["from"]) > 1 or len(r["to"]) > 1) for r in m["rels"]))]:
        if b:
            labels.add(lab)
    return labels


def depth(arcs, top=None):
    return max((1 + depth(arcs, b) for a, b, _ in arcs if top in (None, a)), default=0)


def node(n):
    orders = [c.get_order() for c in n.get_children()]
    expect_eq(orders, sorted(orders), "the children of a node are in ascending order")
    if n.points_to() == "fact":
        v = ["fact", n.get_fact().get_id()]
    else:
        r = n.get_resource()
        v = ["footnote", r.get_role(), r.get_content(), r.get_language(), r.get_title(), r.get_id()]
    return {"to": v, "order": float(n.get_order()), "children": [node(c) for c in n.get_children()]}


def norm(t):
    return obs.sort_tree(t)


def nontrivial(m, labels):
    return sum(any(t[0] == "n" for t in r["to"]) for r in m["rels"]) >= 2
