"""XBRL writers: turn the JSON models the generators build into files.

Everything here is written from the XBRL 2.1 / Dimensions / Inline XBRL syntax, not from brel.
"""
from xml.sax.saxutils import escape as _esc, quoteattr as _qa

XBRLI = "http://www.xbrl.org/2003/instance"
LINK = "http://www.xbrl.org/2003/linkbase"
XLINK = "http://www.w3.org/1999/xlink"
XBRLDI = "http://xbrl.org/2006/xbrldi"
XBRLDT = "http://xbrl.org/2005/xbrldt"
XS = "http://www.w3.org/2001/XMLSchema"
ISO4217 = "http://www.xbrl.org/2003/iso4217"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
STD_LINK_ROLE = "http://www.xbrl.org/2003/role/link"
STD_LABEL = "http://www.xbrl.org/2003/role/label"

ARC_PARENT_CHILD = "http://www.xbrl.org/2003/arcrole/parent-child"
ARC_SUMMATION = "http://www.xbrl.org/2003/arcrole/summation-item"
ARC_CONCEPT_LABEL = "http://www.xbrl.org/2003/arcrole/concept-label"
ARC_CONCEPT_REF = "http://www.xbrl.org/2003/arcrole/concept-reference"
ARC_FACT_FOOTNOTE = "http://www.xbrl.org/2003/arcrole/fact-footnote"
DIM_ARCS = {
    "all": "http://xbrl.org/int/dim/arcrole/all",
    "notAll": "http://xbrl.org/int/dim/arcrole/notAll",
    "hypercube-dimension": "http://xbrl.org/int/dim/arcrole/hypercube-dimension",
    "dimension-domain": "http://xbrl.org/int/dim/arcrole/dimension-domain",
    "domain-member": "http://xbrl.org/int/dim/arcrole/domain-member",
    "dimension-default": "http://xbrl.org/int/dim/arcrole/dimension-default",
    "general-special": "http://www.xbrl.org/2003/arcrole/general-special",
}
LINK_TAGS = {
    "presentation": ("presentationLink", "presentationArc"),
    "calculation": ("calculationLink", "calculationArc"),
    "definition": ("definitionLink", "definitionArc"),
    "label": ("labelLink", "labelArc"),
    "reference": ("referenceLink", "referenceArc"),
    "footnote": ("footnoteLink", "footnoteArc"),
}


def esc(s):
    return _esc(s, {"\r": "&#13;"})


def qa(s):
    return _qa(str(s))


def attrs(pairs):
    return "".join(f" {k}={qa(v)}" for k, v in pairs if v is not None)


# ------------------------------------------------------------------ schema

def schema_xml(s, nsmap=None):
    """s: {ns, prefix, elements, roles, imports, linkbaseRefs}; nsmap: extra prefixes"""
    decl = {
        "xs": XS, "xbrli": XBRLI, "link": LINK, "xlink": XLINK, "xbrldt": XBRLDT,
    }
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<xs:schema']
    out.append("".join(f' xmlns:{p}={qa(u)}' for p, u in decl.items()))
    if s.get("prefix"):
        out.append(f' xmlns:{s["prefix"]}={qa(s["ns"])}')
    for p, u in (nsmap or {}).items():
        if p != s.get("prefix") and p not in decl:
            out.append(f' xmlns:{p}={qa(u)}')
    out.append(f' targetNamespace={qa(s["ns"])} elementFormDefault="qualified">\n')
    if s.get("roles") or s.get("linkbaseRefs"):
        out.append("<xs:annotation><xs:appinfo>\n")
        for r in s.get("roles", []):
            out.append(f'<link:roleType{attrs([("roleURI", r["uri"]), ("id", r.get("id"))])}>')
            if r.get("def") is not None:
                out.append(f'<link:definition>{esc(r["def"])}</link:definition>')
            for u in r.get("usedOn", []):
                out.append(f"<link:usedOn>{esc(u)}</link:usedOn>")
            out.append("</link:roleType>\n")
        for lb in s.get("linkbaseRefs", []):
            out.append(
                f'<link:linkbaseRef xlink:type="simple" xlink:href={qa(lb)} '
                f'xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n')
        out.append("</xs:appinfo></xs:annotation>\n")
    for imp in s.get("imports", []):
        out.append(f'<xs:import{attrs([("namespace", imp["ns"]), ("schemaLocation", imp["loc"])])}/>\n')
    for loc in s.get("includes", []):
        out.append(f'<xs:include schemaLocation={qa(loc)}/>\n')
    for e in s.get("elements", []):
        if "rawxml" in e:
            out.append(e["rawxml"])
            continue
        out.append("<xs:element" + attrs([
            ("name", e["name"]), ("id", e.get("id")), ("type", e.get("type")),
            ("substitutionGroup", e.get("sg")),
            ("abstract", e.get("abstract")), ("nillable", e.get("nillable")),
            ("xbrli:periodType", e.get("periodType")), ("xbrli:balance", e.get("balance")),
            ("xbrldt:typedDomainRef", e.get("typedDomainRef")),
        ]) + "/>\n")
    out.append("</xs:schema>\n")
    return "".join(out)


# ------------------------------------------------------------------ linkbase

def link_xml(l):
    ltag, atag = LINK_TAGS[l["kind"]]
    out = [f'<link:{ltag} xlink:type="extended"{attrs([("xlink:role", l.get("role")), ("xml:lang", l.get("lang"))])}>\n']
    for item in l.get("sequence") or _default_sequence(l):
        kind, idx = item
        if kind == "loc":
            o = l["locs"][idx]
            out.append(f'<link:loc xlink:type="locator" xlink:href={qa(o["href"])} xlink:label={qa(o["label"])}/>\n')
        elif kind == "arc":
            a = l["arcs"][idx]
            out.append(f"<link:{atag} xlink:type=\"arc\"" + attrs([
                ("xlink:arcrole", a["arcrole"]), ("xlink:from", a["from"]), ("xlink:to", a["to"]),
                ("order", a.get("order")), ("weight", a.get("weight")),
                ("preferredLabel", a.get("preferredLabel")),
            ]) + "/>\n")
        else:
            r = l["resources"][idx]
            out.append(resource_xml(l["kind"], r))
    out.append(f"</link:{ltag}>\n")
    return "".join(out)


def _default_sequence(l):
    return ([("loc", i) for i in range(len(l.get("locs", [])))]
            + [("res", i) for i in range(len(l.get("resources", [])))]
            + [("arc", i) for i in range(len(l.get("arcs", [])))])


def resource_xml(kind, r):
    head = attrs([("xlink:label", r["label"]), ("xlink:role", r.get("role")), ("xml:lang", r.get("lang")),
                  ("id", r.get("id"))])
    if kind == "reference":
        parts = "".join(f'<ref:{k}>{esc(v)}</ref:{k}>' for k, v in r["parts"])
        return f'<link:reference xlink:type="resource"{head}>{parts}</link:reference>\n'
    tag = {"label": "label", "footnote": "footnote"}[kind]
    return f'<link:{tag} xlink:type="resource"{head}>{esc(r["text"])}</link:{tag}>\n'


def linkbase_xml(lb):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n',
           f'<link:linkbase xmlns:link="{LINK}" xmlns:xlink="{XLINK}" '
           f'xmlns:ref="http://www.xbrl.org/2006/ref">\n']
    for r in lb.get("roleRefs", []):
        out.append(f'<link:roleRef roleURI={qa(r["uri"])} xlink:type="simple" xlink:href={qa(r["href"])}/>\n')
    for l in lb["links"]:
        out.append(link_xml(l))
    out.append("</link:linkbase>\n")
    return "".join(out)


# ------------------------------------------------------------------ instance

def context_xml(c, px="xbrli:"):
    """c: {id, scheme, entity, period, dims:[{kind, dim, value, domain?}], container}"""
    out = [f'<{px}context id={qa(c["id"])}><{px}entity><{px}identifier scheme={qa(c["scheme"])}>'
           f'{esc(c["entity"])}</{px}identifier>']
    if c.get("dims"):
        out.append(f"<{px}segment>")
        for d in c["dims"]:
            if d["kind"] == "explicit":
                out.append(f'<xbrldi:explicitMember dimension={qa(d["dim"])}>{esc(d["value"])}</xbrldi:explicitMember>')
            else:
                out.append(f'<xbrldi:typedMember dimension={qa(d["dim"])}><{d["domain"]}>{esc(d["value"])}'
                           f'</{d["domain"]}></xbrldi:typedMember>')
        out.append(f"</{px}segment>")
    out.append(f"</{px}entity>")
    out.append(period_xml(c["period"], px))
    out.append(f"</{px}context>\n")
    return "".join(out)


def period_xml(p, px="xbrli:"):
    if p[0] == "instant":
        body = f"<{px}instant>{p[1]}</{px}instant>"
    else:
        body = f"<{px}startDate>{p[1]}</{px}startDate><{px}endDate>{p[2]}</{px}endDate>"
    return f"<{px}period>{body}</{px}period>"


def unit_xml(u, px="xbrli:"):
    """u: {id, num:[qname], den:[qname]}"""
    def m(q):
        return f"<{px}measure>{esc(q)}</{px}measure>"
    if u.get("den"):
        body = (f"<{px}divide><{px}unitNumerator>{''.join(map(m, u['num']))}</{px}unitNumerator>"
                f"<{px}unitDenominator>{''.join(map(m, u['den']))}</{px}unitDenominator></{px}divide>")
    else:
        body = "".join(map(m, u["num"]))
    return f'<{px}unit id={qa(u["id"])}>{body}</{px}unit>\n'


def fact_xml(f):
    """f: {concept: 'p:Name', ctx, unit?, id?, value, decimals?, precision?, nil?}"""
    a = attrs([("id", f.get("id")), ("contextRef", f.get("ctx")), ("unitRef", f.get("unit")),
               ("decimals", f.get("decimals")), ("precision", f.get("precision")),
               ("xsi:nil", (f.get("xsinil") or "true") if f.get("nil") else f.get("xsinil"))])
    if f.get("nil"):
        return f'<{f["concept"]}{a}/>\n'
    return f'<{f["concept"]}{a}>{esc(f["value"])}</{f["concept"]}>\n'


def instance_xml(inst):
    """inst: {schemaRefs, nsmap, contexts, units, facts, footnotes, default_xbrli}"""
    px = "" if inst.get("default_xbrli") else "xbrli:"
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n', f"<{px}xbrl"]
    out.append(f' xmlns="{XBRLI}"' if not px else f' xmlns:xbrli="{XBRLI}"')
    decl = {"link": LINK, "xlink": XLINK, "xbrldi": XBRLDI, "xsi": XSI, "iso4217": ISO4217}
    if not px:
        decl["xbrli"] = XBRLI
    decl.update(inst.get("nsmap", {}))
    out.append("".join(f" xmlns:{p}={qa(u)}" for p, u in decl.items()))
    out.append(">\n")
    for r in inst.get("schemaRefs", []):
        out.append(f'<link:schemaRef xlink:type="simple" xlink:href={qa(r)}/>\n')
    for r in inst.get("linkbaseRefs", []):
        out.append(f'<link:linkbaseRef xlink:type="simple" xlink:href={qa(r)} '
                   f'xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n')
    parts = {"context": [context_xml(c, px) for c in inst.get("contexts", [])],
             "unit": [unit_xml(u, px) for u in inst.get("units", [])],
             "fact": [fact_xml(f) for f in inst.get("facts", [])],
             "footnote": [link_xml(l) for l in inst.get("footnotes", [])]}
    for name, a, b in inst.get("tuples", []):  # the facts from a to b stand inside a tuple, outer tuples last
        parts["fact"][a] = f"<{name}>" + parts["fact"][a]
        parts["fact"][b] += f"</{name}>"
    for kind in inst.get("layout", ["context", "unit", "fact", "footnote"]):
        out.extend(parts[kind])
    out.append(inst.get("raw", ""))
    out.append(f"</{px}xbrl>\n")
    return "".join(out)
