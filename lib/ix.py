"""Inline XBRL pages: a writer for the JSON models the generators build, and strategies for page layouts.

A node is  a string (text)
        |  {"el": tag, "a": {..}, "c": [node, ..]}    an XHTML element
        |  {"ix": name, "a": {..}, "c": [node, ..]}   an element in the Inline XBRL namespace
        |  {"comment": text} | {"pi": text}
"""
from hypothesis import strategies as st

from lib import xw

IX = "http://www.xbrl.org/2013/inlineXBRL"
XHTML = "http://www.w3.org/1999/xhtml"
TR = {
    1: "http://www.xbrl.org/inlineXBRL/transformation/2010-04-20",
    2: "http://www.xbrl.org/inlineXBRL/transformation/2011-07-31",
    3: "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26",
    4: "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12",
    5: "http://www.xbrl.org/inlineXBRL/transformation/2022-02-16",
}


def node_xml(n, ixp="ix"):
    if isinstance(n, str):
        return xw.esc(n)
    if "comment" in n:
        return f"<!--{n['comment']}-->"
    if "pi" in n:
        return f"<?{n['pi']}?>"
    tag = n["el"] if "el" in n else f"{ixp}:{n['ix']}"
    inner = "".join(node_xml(c, ixp) for c in n.get("c", []))
    head = f"<{tag}" + xw.attrs(sorted(n.get("a", {}).items()))
    if inner == "" and n.get("short", True):
        return head + "/>"
    return f"{head}>{inner}</{tag}>"


def relationship_xml(r, ixp="ix"):
    return f"<{ixp}:relationship" + xw.attrs([
        ("fromRefs", r["from"]), ("toRefs", r["to"]), ("arcrole", r.get("arcrole")), ("linkRole", r.get("linkRole")),
        ("order", r.get("order"))]) + "/>\n"


def _header(p, ixp, parts, what, resources):
    out = [f'<div style="display:none"><{ixp}:header>\n']
    if p.get("hidden") and "hidden" in what:
        out.append(f"<{ixp}:hidden>" + "".join(node_xml(n, ixp) for n in p["hidden"]) + f"</{ixp}:hidden>\n")
    if p.get("refs") and "refs" in what:
        out.append(f"<{ixp}:references>")
        for kind, href in p["refs"]:
            if kind == "schema":
                out.append(f'<link:schemaRef xlink:type="simple" xlink:href={xw.qa(href)}/>')
            else:
                out.append(f'<link:linkbaseRef xlink:type="simple" xlink:href={xw.qa(href)} '
                           'xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>')
        out.append(f"</{ixp}:references>\n")
    body = "".join("".join(parts[k]) for k in what if k in parts) + (p.get("raw_resources", "") if resources else "")
    if body or resources:
        out.append(f"<{ixp}:resources>\n{body}</{ixp}:resources>\n")
    out.append(f"</{ixp}:header></div>\n")
    return "".join(out)


def page_xml(p):
    ixp = p.get("ixp", "ix")
    decl = {ixp: IX, "link": xw.LINK, "xlink": xw.XLINK, "xbrli": xw.XBRLI, "xbrldi": xw.XBRLDI, "xsi": xw.XSI,
            "iso4217": xw.ISO4217, **p.get("ns", {})}
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n',
           f'<html xmlns="{XHTML}"' + "".join(f" xmlns:{k}={xw.qa(v)}" for k, v in decl.items())
           + xw.attrs([("xml:lang", p.get("lang"))]) + ">\n<head><title>A report</title></head>\n<body>\n"]
    parts = {"context": [xw.context_xml(c) for c in p.get("contexts", [])],
             "unit": [xw.unit_xml(u) for u in p.get("units", [])],
             "relationship": [relationship_xml(r, ixp) for r in p.get("relationships", [])]}
    order = p.get("layout", ["relationship", "context", "unit"])
    late = p.get("late")  # what a second header, at the end of the page, holds
    if p.get("header", True):
        out.append(_header(p, ixp, parts, [k for k in ["hidden", "refs"] + list(order) if k not in (late or [])], p.get("resources", True)))
    out.append("".join(node_xml(n, ixp) for n in p.get("body", [])))
    if late is not None:
        out.append("\n" + _header(p, ixp, parts, [k for k in ["hidden", "refs"] + list(order) if k in late], False))
    out.append("\n</body>\n</html>\n")
    return "".join(out)


# ------------------------------------------------------------------ layouts

HEADER_PARTS = ["hidden", "refs", "relationship", "context", "unit"]
# what a second header of the page holds, or None for a page with one header
second_header = st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from(HEADER_PARTS), min_size=1, max_size=4, unique=True).map(sorted))

WRAPPERS = [["p"], ["div", "span"], ["table", "tr", "td"], ["div", "div", "p", "b"], ["ul", "li"]]


def wrap(node, which, before="", after=""):
    tags = WRAPPERS[which % len(WRAPPERS)]
    n = {"el": tags[-1], "c": [x for x in (before, node, after) if x != ""]}
    for t in reversed(tags[:-1]):
        n = {"el": t, "c": [n]}
    return n


layout_of_fact = st.tuples(st.integers(0, len(WRAPPERS)), st.sampled_from(["", "Total: ", "1,000 & more "]),
                           st.sampled_from(["", " m", " <>", " 7"]))


def place(node, lay):
    """The fact's place in the page: index len(WRAPPERS) stands for the hidden section."""
    w, before, after = lay
    return wrap(node, w, before, after)


def is_hidden(lay):
    return lay[0] == len(WRAPPERS)


def simple_taxonomy(types, uri="http://example.com/tax", prefix="t"):
    """One schema with one concept per entry of types."""
    els = [{"name": f"C{i}", "id": f"{prefix}_C{i}", "type": t, "sg": "xbrli:item", "periodType": "duration",
            "nillable": "true"} for i, t in enumerate(types)]
    return {"file": "t.xsd", "ns": uri, "prefix": prefix, "elements": els}


CTX = [{"id": "c0", "scheme": "http://example.com/s", "entity": "E", "period": ["duration", "2023-01-01", "2023-12-31"]},
       {"id": "c1", "scheme": "http://example.com/s", "entity": "E", "period": ["instant", "2023-12-31"]}]
UNIT = [{"id": "usd", "num": ["iso4217:USD"], "den": []}]
