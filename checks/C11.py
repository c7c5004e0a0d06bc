"""C11  References and footnotes lead from their element or fact to the resource."""
import random

from hypothesis import strategies as st

from lib import gen, nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C11"
QUICK = 10000
THOROUGH = 120000
RULE = ("1-2 reference linkbases over the elements of a taxonomy and 0-2 footnote links over the facts of an instance, with m:n arcs; "
        "non-trivial = two reference arcs and two footnote arcs")
MUST_HIT = ["fan of resources", "fan of sources", "shared resource", "no role", "custom role", "custom arc role", "fact to fact",
            "markup", "lang on link", "reordered", "several links", "no parts", "no footnotes", "same role twice"]

REF_PARTS = ["Name", "Number", "Paragraph", "Section", "URI", "Publisher", "IssueDate"]
REF_ROLES = [None, "http://www.xbrl.org/2003/role/reference", "http://www.xbrl.org/2003/role/disclosureRef", "http://example.com/role/ref"]
FOOT_ROLES = [None, "http://www.xbrl.org/2003/role/footnote", "http://example.com/role/foot"]
ARCS = {"reference": [xw.ARC_CONCEPT_REF] * 4 + ["http://example.com/arcrole/see"],
        "footnote": [xw.ARC_FACT_FOOTNOTE] * 4 + ["http://example.com/arcrole/note"]}
FACT_FACT = "http://www.xbrl.org/2009/arcrole/fact-explanatoryFact"


@st.composite
def _link(draw, kind, n_src):
    src = draw(st.lists(st.integers(0, n_src - 1), min_size=1, max_size=4, unique=True))
    if kind == "reference":
        res = [{"role": draw(st.sampled_from(REF_ROLES)),
                "parts": [[p, draw(gen.plain_text1)] for p in
                          draw(st.lists(st.sampled_from(REF_PARTS), max_size=3, unique=True))]}
               for _ in range(draw(st.integers(1, 4)))]
    else:
        res = [{"role": draw(st.sampled_from(FOOT_ROLES)), "text": draw(gen.xml_text),
                "markup": draw(st.sampled_from([False, False, True])),
                "lang": draw(st.sampled_from(["en", "de", "fr-CH", None]))} for _ in range(draw(st.integers(1, 4)))]
    arcs, taken = [], set()
    for _ in range(draw(st.integers(0, 6))):
        s = draw(st.lists(st.integers(0, len(src) - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 2])), unique=True))
        t = draw(st.lists(st.integers(0, len(res) - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 2])), unique=True))
        ar = draw(st.sampled_from(ARCS[kind]))
        new = {(x, y, ar) for x in s for y in t}
        if new & taken:
            continue
        taken |= new
        arcs.append({"s": s, "t": t, "arcrole": ar, "order": draw(st.sampled_from([None, None, "1", "2", "3", "1.5", "10", "9"]))})
    ff = []
    if kind == "footnote" and len(src) > 1 and draw(st.integers(0, 2)) == 0:
        ff.append({"s": 0, "t": 1, "order": draw(st.sampled_from([None, "2"]))})
    return {"kind": kind, "src": src, "res": res, "arcs": arcs, "ff": ff,
            "role": draw(st.sampled_from([xw.STD_LINK_ROLE] * 2 + ["http://example.com/role/A", "http://example.com/role/B"])),
            "lang": draw(st.sampled_from([None, None, "it"])), "seed": draw(st.integers(0, 10**6))}


@st.composite
def _case(draw, tier):
    tax = draw(nets.taxonomy(2, 6, kinds=("concept", "text", "text", "abstract", "member", "dimension")))
    pool = nets.refs(tax)
    concepts = [r for r in pool if nets.element(tax, r)["kind"] in ("concept", "text")]
    facts = [draw(st.sampled_from(concepts)) for _ in range(draw(st.integers(1, 5)))] if concepts else []
    return {"tax": tax, "facts": facts,
            "books": [draw(st.lists(_link("reference", len(pool)), min_size=1, max_size=2)) for _ in range(draw(st.integers(1, 2)))],
            "foot": draw(st.lists(_link("footnote", len(facts)), max_size=2)) if facts else [],
            "idstyle": draw(st.sampled_from(["f", "fact-", "_"]))}


def strategy(tier):
    return _case(tier)


def _serialise(m, link, source_href, source_name, labels):
    rnd = random.Random(link["seed"])
    kind = link["kind"]
    items, edges, loc_of, owner = [], [], {}, {}
    for a in link["arcs"]:
        for y in a["t"]:
            owner.setdefault(y, []).append(a)
    lab, views = {}, []
    for i, a in enumerate(link["arcs"]):
        if len(a["t"]) > 1 and all(len(owner[y]) == 1 for y in a["t"]):
            labels.add("fan of resources")
            for y in a["t"]:
                lab[y] = f"g{i}"
    for y, r in enumerate(link["res"]):
        lab.setdefault(y, f"r{y}")
        if len(owner.get(y, [])) > 1:
            labels.add("shared resource")
        if r["role"] is None:
            labels.add("no role")
        elif "example" in r["role"]:
            labels.add("custom role")
        if kind == "reference":
            if not r["parts"]:
                labels.add("no parts")
            items.append(xw.resource_xml("reference", {**r, "label": lab[y]}))
            views.append(["reference", r["role"] or "http://www.xbrl.org/2003/role/reference", dict(map(tuple, r["parts"])), None])
        else:
            lang = r["lang"] or link["lang"] or "en"
            if r["lang"] is None and link["lang"]:
                labels.add("lang on link")
            own = r["lang"] or (None if link["lang"] else "en")
            body, text = xw.esc(r["text"]), r["text"]
            if r["markup"]:
                body, text = f'<h:p xmlns:h="http://www.w3.org/1999/xhtml">{body} <h:b>b</h:b></h:p>!', text + " b!"
                labels.add("markup")
            items.append('<link:footnote xlink:type="resource"' + xw.attrs([
                ("xlink:label", lab[y]), ("xlink:role", r["role"]), ("xml:lang", own)]) + f">{body}</link:footnote>\n")
            views.append(["footnote", r["role"] or "http://www.xbrl.org/2003/role/footnote", text, lang])

    def loc(x, label):
        items.append('<link:loc xlink:type="locator"' + xw.attrs([
            ("xlink:href", source_href(link["src"][x])), ("xlink:label", label)]) + "/>\n")

    def single(x):
        if x not in loc_of or rnd.random() < 0.2:
            loc_of[x] = f"l{x}_{len(items)}"
            loc(x, loc_of[x])
        return loc_of[x]

    for i, a in enumerate(link["arcs"]):
        if len(a["s"]) > 1:
            frm = f"fan{i}"
            for x in a["s"]:
                loc(x, frm)
            labels.add("fan of sources")
        else:
            frm = single(a["s"][0])
        for to in dict.fromkeys(lab[y] for y in a["t"]):
            items.append(f'<link:{xw.LINK_TAGS[kind][1]} xlink:type="arc"' + xw.attrs([
                ("xlink:arcrole", a["arcrole"]), ("xlink:from", frm), ("xlink:to", to), ("order", a["order"])]) + "/>\n")
        if "example" in a["arcrole"]:
            labels.add("custom arc role")
        for x in a["s"]:
            for y in a["t"]:
                edges.append([link["role"], a["arcrole"], source_name(link["src"][x]), views[y], float(a["order"] or 1)])
    for a in link["ff"]:
        f, t = single(a["s"]), single(a["t"])
        items.append('<link:footnoteArc xlink:type="arc"' + xw.attrs([
            ("xlink:arcrole", FACT_FACT), ("xlink:from", f), ("xlink:to", t), ("order", a["order"])]) + "/>\n")
        edges.append([link["role"], FACT_FACT, source_name(link["src"][a["s"]]), ["fact", source_name(link["src"][a["t"]])],
                      float(a["order"] or 1)])
        labels.add("fact to fact")
    rnd.shuffle(items)
    tag = xw.LINK_TAGS[kind][0]
    return (f'<link:{tag} xlink:type="extended"{xw.attrs([("xlink:role", link["role"]), ("xml:lang", link["lang"])])}>\n'
            + "".join(items) + f"</link:{tag}>\n"), edges


def _edges(filing, kind):
    edges = []
    for n in filing.get_all_physical_networks():
        if obs.net_kind(n) != kind:
            continue
        arcroles = {r.get_arc_role() for r in n.get_roots()}
        expect(len(arcroles) == 1 and n.is_physical(), f"a {kind} network with the arc roles {arcroles}")
        nets.api_relations(n, kind, n.get_link_role())

        def walk(node):
            cs = node.get_children()
            orders = [c.get_order() for c in cs]
            expect_eq(orders, sorted(orders), "the children of a node are in ascending order")
            for c in cs:
                edges.append([n.get_link_role(), c.get_arc_role(), source(node), target(c), float(c.get_order())])
                expect_eq(c.get_arc_role(), n.get_roots()[0].get_arc_role(), "arc role within a network")
                walk(c)

        seen = set()
        for r in n.get_roots():
            key = str(target(r)) if r.points_to() != "resource" else id(r)
            expect(key not in seen, f"{key} is a root twice")
            seen.add(key)
            walk(r)
    return edges


def source(node):
    expect(node.points_to() != "resource", "an arc starts at a resource")
    if node.points_to() == "fact":
        return node.get_fact().get_id()
    return obs.clark(node.get_report_element().get_name())


def target(node):
    if node.points_to() != "resource":
        return [node.points_to(), source(node)]
    r = node.get_resource()
    name = type(r).__name__
    if name == "BrelReference":
        expect_eq([r.get_title(), r.convert_to_dict()], [None, {"role": r.get_role(), "label": r.get_label(), "content": r.get_content()}],
                  "views of a reference")
        return ["reference", r.get_role(), dict(r.get_content()), None]
    return ["footnote", r.get_role(), r.get_content(), r.get_language()]


def check(m):
    labels, files, want_ref, want_foot, names = set(), {}, [], [], []
    tax = m["tax"]
    pool = nets.refs(tax)
    used_roles = []
    for k, book in enumerate(m["books"]):
        parts = []
        for link in book:
            text, edges = _serialise(m, link, lambda x: nets.href(tax, pool[x]), lambda x: nets.clark(tax, pool[x]), labels)
            parts.append(text)
            want_ref += edges
            used_roles.append(link["role"])
        names.append(f"ref{k}.xml")
        files[names[-1]] = (f'<?xml version="1.0"?>\n<link:linkbase xmlns:link="{xw.LINK}" xmlns:xlink="{xw.XLINK}" '
                            f'xmlns:ref="http://www.xbrl.org/2006/ref">\n' + "".join(parts) + "</link:linkbase>\n")
    raw = []
    for link in m["foot"]:
        text, edges = _serialise(m, link, lambda x: f'#{m["idstyle"]}{x}', lambda x: f'{m["idstyle"]}{x}', labels)
        raw.append(text)
        want_foot += edges
    files.update(nets.tax_files(tax))
    files["i.xml"] = xw.instance_xml({
        "schemaRefs": [s["file"] for s in tax["schemas"]], "linkbaseRefs": names,
        "nsmap": {f"p{k}": s["ns"] for k, s in enumerate(tax["schemas"])},
        "contexts": [{"id": "c", "scheme": "http://s", "entity": "E", "period": ["instant", "2024-01-01"]}],
        "units": [{"id": "u", "num": ["iso4217:USD"]}],
        "facts": [{"concept": f"p{k}:" + tax["schemas"][k]["elements"][i]["name"], "ctx": "c", "value": str(j),
                   "unit": "u" if tax["schemas"][k]["elements"][i]["kind"] == "concept" else None,
                   "id": f'{m["idstyle"]}{j}'} for j, (k, i) in enumerate(m["facts"])],
        "raw": "".join(raw)})
    filing = obs.open_files(files, "i.xml")
    with under_test("reading the reference and footnote networks"):
        got_ref, got_foot = _edges(filing, "reference"), _edges(filing, "footnote")
    expect_eq(sorted(got_ref, key=str), sorted(want_ref, key=str), "references")
    expect_eq(sorted(got_foot, key=str), sorted(want_foot, key=str), "footnotes")
    with under_test("the facts"):
        expect_eq([f.get_id() for f in filing.get_all_facts()], [f'{m["idstyle"]}{j}' for j in range(len(m["facts"]))], "facts")
    obs.expect_no_errors(filing)
    by_src = {}
    for e in want_ref + want_foot:
        by_src.setdefault(str(e[:3]), []).append(e[4])
    if any(o != sorted(o) for o in by_src.values()):
        labels.add("reordered")
    if len(used_roles) > 1:
        labels.add("several links")
    if len(set(used_roles)) < len(used_roles):
        labels.add("same role twice")
    if not m["foot"]:
        labels.add("no footnotes")
    return labels


def nontrivial(m, labels):
    return (sum(len(l["arcs"]) for b in m["books"] for l in b) >= 2 and sum(len(l["arcs"]) for l in m["foot"]) >= 2)
