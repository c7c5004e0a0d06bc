"""C19  An inline filing and its XML equivalent give the same report."""
import json
from decimal import Decimal

from hypothesis import strategies as st

from lib import gen, ix, obs, xw
from lib.harness import expect_eq, under_test

ID = "C19"
QUICK = 3000
THOROUGH = 40000
RULE = ("one filing (C01's: 1-2 schemas, dimensions, contexts, units, up to 8 facts; plus labels, references, a presentation network "
        "and footnotes) written as an XML instance and as 1-3 inline pages with random placement, prefixes per page, number formats, "
        "scales and hidden facts; both are opened and compared; non-trivial = at least two facts with different contexts or a "
        "dimension, and two inline layouts")
MUST_HIT = ["several pages", "hidden", "scaled", "formatted number", "negative", "nil", "dimension", "footnote", "labels", "presentation",
            "references", "page without resources", "context on another page", "other prefixes", "nested", "no id", "no header",
            "two headers"]


@st.composite
def _case(draw, tier):
    m = draw(gen.fact_filing(max_facts=8, ids="mixed", big=True))
    pages = draw(st.sampled_from([1, 1, 2, 3]))
    els = [[k, i] for k, s in enumerate(m["schemas"]) for i, e in enumerate(s["elements"]) if "sg" in e]
    lay = []
    for f in m["facts"]:
        lay.append({"page": draw(st.integers(0, pages - 1)), "place": draw(ix.layout_of_fact), "scale": draw(st.sampled_from([None, None, 0, 3, 6, -2])),
                    "format": draw(st.sampled_from([None, "num-dot-decimal", "num-comma-decimal"])),
                    "nest": draw(st.integers(0, 5)) == 0})
    with_id = [j for j, f in enumerate(m["facts"]) if f["id"]]
    feet = []
    for _ in range(draw(st.integers(0, 3)) if with_id else 0):
        feet.append({"text": draw(gen.xml_text1), "lang": draw(st.sampled_from(["en", "de"])), "page": draw(st.integers(0, pages - 1)),
                     "role": draw(st.sampled_from([None, "http://example.com/role/foot"])),
                     "of": draw(st.lists(st.sampled_from(with_id), min_size=1, max_size=3, unique=True)),
                     "order": draw(st.sampled_from([None, "2", "1.5"]))})
    pc = draw(st.lists(st.sampled_from(els), min_size=2, max_size=6, unique_by=tuple)) if len(els) > 1 else []
    return {**m, "pages": pages, "lay": lay, "feet": feet,
            "labels": [[x, draw(gen.plain_text1), draw(st.sampled_from(["en", "de"])), draw(st.sampled_from([None, "http://www.xbrl.org/2003/role/terseLabel"]))]
                       for x in draw(st.lists(st.sampled_from(els), max_size=4, unique_by=tuple))],
            "refs": [[x, draw(gen.plain_text1)] for x in draw(st.lists(st.sampled_from(els), max_size=2, unique_by=tuple))],
            "tree": [[x, draw(st.integers(0, max(0, j - 1))), draw(st.sampled_from(["1", "2", "3"]))] for j, x in enumerate(pc)],
            "books": draw(st.sampled_from(["schema", "instance"])),
            "ctxpage": [draw(st.integers(0, pages - 1)) for _ in m["contexts"]], "unitpage": [draw(st.integers(0, pages - 1)) for _ in m["units"]],
            "relpage": draw(st.integers(0, pages - 1)), "refpage": draw(st.integers(0, pages - 1)),
            "pprefixes": [draw(st.permutations(m["iprefixes"])) if draw(st.booleans()) else m["iprefixes"] for _ in range(pages)],
            "order": draw(st.permutations(range(len(m["facts"])))), "ext": draw(st.sampled_from(["xhtml", "html", "htm"])),
            "ixp": draw(st.sampled_from(["ix", "ix", "inline"])), "late": [draw(ix.second_header) for _ in range(pages)]}


def strategy(tier):
    return _case(tier)


def _linkbases(m):
    def href(x):
        return m["schemas"][x[0]]["file"] + "#" + m["schemas"][x[0]]["elements"][x[1]]["id"]
    links = []
    if m["labels"]:
        links.append({"kind": "label", "role": xw.STD_LINK_ROLE,
                      "locs": [{"href": href(x), "label": f"l{i}"} for i, (x, *_) in enumerate(m["labels"])],
                      "resources": [{"label": f"r{i}", "role": role or xw.STD_LABEL, "lang": lang, "text": t} for i, (_, t, lang, role) in enumerate(m["labels"])],
                      "arcs": [{"from": f"l{i}", "to": f"r{i}", "arcrole": xw.ARC_CONCEPT_LABEL} for i in range(len(m["labels"]))]})
    if m["refs"]:
        links.append({"kind": "reference", "role": xw.STD_LINK_ROLE,
                      "locs": [{"href": href(x), "label": f"l{i}"} for i, (x, _) in enumerate(m["refs"])],
                      "resources": [{"label": f"r{i}", "role": "http://www.xbrl.org/2003/role/reference", "parts": [["Name", t]]} for i, (_, t) in enumerate(m["refs"])],
                      "arcs": [{"from": f"l{i}", "to": f"r{i}", "arcrole": xw.ARC_CONCEPT_REF} for i in range(len(m["refs"]))]})
    if m["tree"]:
        links.append({"kind": "presentation", "role": "http://example.com/role/A",
                      "locs": [{"href": href(x), "label": f"l{i}"} for i, (x, *_) in enumerate(m["tree"])],
                      "arcs": [{"from": f"l{p}", "to": f"l{i}", "arcrole": xw.ARC_PARENT_CHILD, "order": o} for i, (_, p, o) in enumerate(m["tree"]) if i]})
    return {"file": "lb.xml", "links": links} if links else None


def _group(s):
    i, _, frac = s.partition(".")
    out = []
    while len(i) > 3:
        out.insert(0, i[-3:])
        i = i[:-3]
    return ",".join([i] + out) + ("." + frac if frac else "")


def _pages(m, labels, schema_files, lb):
    pages = [{"ns": {**{p: s["ns"] for p, s in zip(m["pprefixes"][k], m["schemas"])}, **gen.UNIT_NS, "ixt": ix.TR[4]}, "ixp": m["ixp"],
              "body": [], "hidden": [], "contexts": [], "units": [], "relationships": [], "lang": "en"} for k in range(m["pages"])]

    def q(k, ref):
        return m["pprefixes"][k][ref[0]] + ":" + m["schemas"][ref[0]]["elements"][ref[1]]["name"]

    for c, k in zip(m["contexts"], m["ctxpage"]):
        pages[k]["contexts"].append({**c, "dims": [
            {"kind": "explicit", "dim": q(k, d["dim"]), "value": q(k, d["member"])} if d["kind"] == "explicit" else
            {"kind": "typed", "dim": q(k, d["dim"]), "value": d["text"], "domain": f'{m["pprefixes"][k][d["dim"][0]]}:domain{d["dim"][0]}'}
            for d in c["dims"]]})
    for u, k in zip(m["units"], m["unitpage"]):
        pages[k]["units"].append(u)
    last = {}
    for j in m["order"]:
        f, l = m["facts"][j], m["lay"][j]
        k = l["page"]
        t = m["schemas"][f["concept"][0]]["elements"][f["concept"][1]]["type"]
        a = {"name": q(k, f["concept"]), "contextRef": m["contexts"][f["ctx"]]["id"]}
        if f["id"]:
            a["id"] = f["id"]
        if f["nil"]:
            a["xsi:nil"] = "true"
            labels.add("nil")
        if m["ctxpage"][f["ctx"]] != k:
            labels.add("context on another page")
        if f["unit"] is not None:
            a["unitRef"] = m["units"][f["unit"]]["id"]
            text = ""
            if not f["nil"]:
                d = Decimal(f["value"])
                if d < 0:
                    a["sign"] = "-"
                    d = -d
                    labels.add("negative")
                if l["scale"] is not None:
                    a["scale"] = str(l["scale"])
                    if l["scale"]:
                        labels.add("scaled")
                    d = d.scaleb(-l["scale"])
                text = format(abs(d), "f")
                if l["format"]:
                    a["format"] = "ixt:" + l["format"]
                    text = _group(text)
                    labels.add("formatted number")
                    if "comma" in l["format"]:
                        text = text.translate(str.maketrans(".,", ",."))
            node = {"ix": "nonFraction", "a": a, "c": [text] if text else []}
        else:
            node = {"ix": "nonNumeric", "a": a, "c": [] if f["nil"] else [f["value"]]}
        if l["nest"] and k in last and not ix.is_hidden(l["place"]):
            last[k]["c"].append({"ix": "exclude", "c": [node]})  # a fact inside another fact, which leaves it out
            labels.add("nested")
        elif ix.is_hidden(l["place"]):
            pages[k]["hidden"].append(node)
            labels.add("hidden")
        else:
            pages[k]["body"].append(ix.place(node, l["place"]))
        if node["ix"] == "nonNumeric" and not f["nil"]:
            last[k] = node
        if not f["id"]:
            labels.add("no id")
    for i, x in enumerate(m["feet"]):
        a = {"id": f"foot{i}", "xml:lang": x["lang"]}
        if x["role"]:
            a["footnoteRole"] = x["role"]
        pages[x["page"]]["body"].append({"el": "p", "c": [{"ix": "footnote", "a": a, "c": [x["text"]]}]})
        pages[m["relpage"]]["relationships"].append({"from": " ".join(m["facts"][j]["id"] for j in x["of"]), "to": f"foot{i}", "order": x["order"]})
        labels.add("footnote")
    pages[m["refpage"]]["refs"] = [["schema", f] for f in schema_files] + ([["linkbase", "lb.xml"]] if lb and m["books"] == "instance" else [])
    for p in pages:
        p["resources"] = bool(p["contexts"] or p["units"] or p["relationships"])
        if not p["resources"]:
            labels.add("page without resources")
            if not p.get("refs") and not p["hidden"]:
                p["header"] = False
                labels.add("no header")
    for p, late in zip(pages, m["late"]):
        if late and p.get("header", True):
            p["late"] = late
            labels.add("two headers")
    return pages


def _view(filing, numeric):
    with under_test("reading the report"):
        facts = obs.facts_view(filing)
        for f in facts:
            if f["concept"] in numeric and f["value"] != "":
                f["value"] = str(Decimal(f["value"]).normalize() + 0)
        nets = sorted((net(n) for n in filing.get_all_physical_networks()), key=key)
        comps = sorted(([c.get_URI(), c.get_info()] + [None if x is None else net(x) for x in (
            c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network())] for c in filing.get_all_components()), key=key)
        return {"facts": sorted(facts, key=key), "elements": sorted(obs.elements_view(filing), key=key), "networks": nets, "components": comps}


def key(x):
    return json.dumps(x, sort_keys=True)


def net(n):
    def node(x):
        v = obs.node_view(x)
        return v
    return {"kind": obs.net_kind(n), "role": n.get_link_role(), "roots": sorted((obs.sort_tree(node(r)) for r in n.get_roots()), key=key)}


def files_of(m, labels):
    """(files and entry of the XML filing, files and entry of the inline filing)"""
    for j, f in enumerate(m["facts"]):
        t = m["schemas"][f["concept"][0]]["elements"][f["concept"][1]]["type"]
        if f["unit"] is None and (t in gen.NUMERIC_TYPES or t in gen.INTEGER_TYPES):
            raise AssertionError("numeric fact without a unit")
    lb = _linkbases(m)
    taxfiles = {}
    for k, s in enumerate(m["schemas"]):
        s = dict(s)
        if k == 0:
            s["roles"] = [{"uri": "http://example.com/role/A", "id": "A", "def": "1 - Statement - A", "usedOn": ["link:presentationLink"]}]
            if lb and m["books"] == "schema":
                s["linkbaseRefs"] = ["lb.xml"]
        taxfiles[s["file"]] = xw.schema_xml(s, gen.SCHEMA_NS)
    if lb:
        taxfiles["lb.xml"] = xw.linkbase_xml(lb)
    mx = {**m, "linkbaseRefs": ["lb.xml"] if lb and m["books"] == "instance" else []}
    if m["feet"]:
        of = sorted({j for x in m["feet"] for j in x["of"]})
        mx["footnotes"] = [{"kind": "footnote", "role": xw.STD_LINK_ROLE,
                            "locs": [{"href": "#" + m["facts"][j]["id"], "label": f"l{j}"} for j in of],
                            "resources": [{"label": f"r{i}", "role": x["role"], "lang": x["lang"], "text": x["text"]} for i, x in enumerate(m["feet"])],
                            "arcs": [{"from": f"l{j}", "to": f"r{i}", "arcrole": xw.ARC_FACT_FOOTNOTE, "order": x["order"]}
                                     for i, x in enumerate(m["feet"]) for j in x["of"]]}]
    xml = {**taxfiles, "i.xml": xw.instance_xml(gen.instance_of(mx))}
    pages = _pages(m, labels, list(taxfiles)[:len(m["schemas"])], lb)
    files = {**taxfiles, **{f"p{k}.{m['ext']}": ix.page_xml(p) for k, p in enumerate(pages)}}
    return xml, "i.xml", files, "" if len(pages) > 1 else f"p0.{m['ext']}"


def check(m):
    labels = set()
    xmlfiles, xmlentry, files, entry = files_of(m, labels)
    numeric = {gen.dts_clark(m, f["concept"]) for f in m["facts"] if f["unit"] is not None}
    xml = obs.open_files(xmlfiles, xmlentry, "opening the XML filing")
    want = _view(xml, numeric)
    obs.expect_no_errors(xml, "the XML filing")
    inline = obs.open_files(files, entry, "opening the inline filing")
    got = _view(inline, numeric)
    obs.expect_no_errors(inline, "the inline filing")
    for part in want:
        expect_eq(got[part], want[part], f"{part} of the inline filing, compared with those of the XML filing")
    expect_eq(len(want["facts"]), len(m["facts"]), "the number of facts")
    for lab, b in [("several pages", m["pages"] > 1), ("dimension", any(c["dims"] for c in m["contexts"])), ("labels", m["labels"]),
                   ("presentation", m["tree"]), ("references", m["refs"]), ("other prefixes", any(list(p) != list(m["iprefixes"]) for p in m["pprefixes"]))]:
        if b:
            labels.add(lab)
    return labels


def nontrivial(m, labels):
    used = {f["ctx"] for f in m["facts"]}
    return (len(m["facts"]) >= 2 and (len(used) > 1 or any(m["contexts"][c]["dims"] for c in used))
            and len({l["place"][0] for l in m["lay"]}) > 1)
