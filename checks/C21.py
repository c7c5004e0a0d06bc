"""C21  A defect in one part of a filing is reported and costs nothing else."""
import json
from copy import deepcopy
import re

from hypothesis import strategies as st
from lxml import etree

from lib import gen, nets, obs, xw
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C21"
QUICK = 4800
THOROUGH = 40000
RULE = ("a well-formed XML filing (facts, dimensions, units, labels, references, footnotes, presentation, calculation and definition "
        "links) and the same with 1-3 defects of some 45 kinds in its facts, contexts, units, elements, locators, arcs, resources and "
        "links; both are opened and whatever no defect touches is compared; non-trivial = the filing has a fact and an arc that no defect touches")


# ------------------------------------------------------------------ the sound filing

@st.composite
def _tree(draw, pool, arcs_max=6):
    """A forest over some of the pool, as (nodes, arcs [parent, child, order])."""
    if len(pool) < 2:
        return None
    nodes = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=6, unique_by=tuple))
    arcs = []
    for j in range(1, len(nodes)):
        if draw(st.integers(0, 5)):
            arcs.append([draw(st.integers(0, j - 1)), j, draw(st.sampled_from(["1", "2", "3", "1.5"]))])
    return {"nodes": nodes, "arcs": arcs}


CATALOG = "META-INF/catalog.xml"


@st.composite
def _case(draw, tier):
    m = draw(gen.fact_filing(max_facts=6, ids="always", reprefix=False, max_ctx=3))
    for f in m["facts"]:
        f["nil"] = False
        f["value"] = f["value"] or "0"
    els = [[k, i] for k, s in enumerate(m["schemas"]) for i, e in enumerate(s["elements"]) if "sg" in e]
    concepts = [x for x in els if m["schemas"][x[0]]["elements"][x[1]].get("abstract") is None]
    links = []
    for kind, role, pool in [("presentation", "A", els), ("presentation", "B", els), ("calculation", "B", concepts),
                             ("definition", "C", els)]:
        t = draw(_tree(pool))
        if t:
            links.append({"kind": kind, "role": f"http://example.com/role/{role}", **t})
    res = []
    for kind in ("label", "reference"):
        rs = [[x, draw(gen.plain_text1)] for x in draw(st.lists(st.sampled_from(els), max_size=4))]
        if rs:
            res.append({"kind": kind, "of": rs})
    foot = [[draw(st.integers(0, len(m["facts"]) - 1)), draw(gen.plain_text1)] for _ in range(draw(st.integers(0, 3)))] if m["facts"] else []
    defects = [[gen.evenly(draw, WEIGHTED), draw(st.integers(0, 50))] for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    circles = [d for d in defects if d[0] == "link: arcs in a circle"]
    return {**m, "links": links, "res": res, "foot": foot, "folder": draw(st.integers(0, 3)) == 0, "defects": circles[:1] or defects}  # what a circle costs depends on the other arcs


def strategy(tier):
    return _case(tier)


def _files(m):
    def href(x):
        return m["schemas"][x[0]]["file"] + "#" + m["schemas"][x[0]]["elements"][x[1]]["id"]
    files, names = {}, []
    arcrole = {"presentation": xw.ARC_PARENT_CHILD, "calculation": xw.ARC_SUMMATION, "definition": xw.DIM_ARCS["general-special"]}
    for n, l in enumerate(m["links"]):
        names.append(f"net{n}.xml")
        files[names[-1]] = xw.linkbase_xml({"links": [{
            "kind": l["kind"], "role": l["role"], "locs": [{"href": href(x), "label": f"l{i}"} for i, x in enumerate(l["nodes"])],
            "arcs": [{"from": f"l{a}", "to": f"l{b}", "arcrole": arcrole[l["kind"]], "order": o,
                      "weight": "1" if l["kind"] == "calculation" else None} for a, b, o in l["arcs"]]}]})
    for l in m["res"]:
        names.append(f"{l['kind']}.xml")
        wl = {"kind": l["kind"], "role": xw.STD_LINK_ROLE, "locs": [], "resources": [], "arcs": []}
        for i, (x, t) in enumerate(l["of"]):
            wl["locs"].append({"href": href(x), "label": f"l{i}"})
            wl["resources"].append({"label": f"r{i}", "role": "http://www.xbrl.org/2003/role/" + l["kind"], "lang": "en", "text": t, "parts": [["Name", t]]})
            wl["arcs"].append({"from": f"l{i}", "to": f"r{i}", "arcrole": xw.ARC_CONCEPT_LABEL if l["kind"] == "label" else xw.ARC_CONCEPT_REF})
        files[names[-1]] = xw.linkbase_xml({"links": [wl]})
    for k, s in enumerate(m["schemas"]):
        s = dict(s)
        if k == 0:
            s["roles"] = [{"uri": f"http://example.com/role/{r}", "id": r, "def": r, "usedOn": list(nets.USED_ON.values())} for r in "ABC"]
        files[s["file"]] = xw.schema_xml(s, gen.SCHEMA_NS)
    inst = gen.instance_of({**m, "linkbaseRefs": names})
    if m["foot"]:
        wl = {"kind": "footnote", "role": xw.STD_LINK_ROLE, "locs": [], "resources": [], "arcs": []}
        for i, (j, t) in enumerate(m["foot"]):
            wl["locs"].append({"href": "#" + m["facts"][j]["id"], "label": f"l{i}"})
            wl["resources"].append({"label": f"r{i}", "role": "http://www.xbrl.org/2003/role/footnote", "lang": "en", "text": t})
            wl["arcs"].append({"from": f"l{i}", "to": f"r{i}", "arcrole": xw.ARC_FACT_FOOTNOTE})
        inst["footnotes"] = [wl]
        inst["layout"] = list(inst["layout"]) + ["footnote"]
    files["i.xml"] = xw.instance_xml(inst)
    if m["folder"]:
        files[CATALOG] = ('<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">'
                          + "".join(f'<rewriteURI uriStartString="http://nowhere.example.com/{x}/" rewritePrefix="../{x}/"/>' for x in "ab") + "</catalog>")
    return files


def entry_of(m):
    """The instance, or the folder of all the documents."""
    return "" if m["folder"] else "i.xml"


# ------------------------------------------------------------------ the defects

LINK, XLINK, XBRLI, XS = ("{%s}" % u for u in (xw.LINK, xw.XLINK, xw.XBRLI, xw.XS))
KINDS = {}


class Doc:
    """The documents of a filing, and what the defects put into them touch."""

    def __init__(self, files):
        self.trees = {n: etree.fromstring(t.encode()) for n, t in files.items()}
        self.facts, self.elements, self.links, self.gone = set(), set(), set(), {}
        self.removed = set()
        self.units, self.contexts = [], []  # those that have a defect (only one each: it may hide another one)
        self.broken = {}  # file -> content
        self.at = None  # what the last defect was put into

    def inst(self):
        return self.trees["i.xml"]

    def fact_elements(self):
        return [e for e in self.inst() if isinstance(e.tag, str) and e.get("contextRef") is not None]

    def facts_of_context(self, c):
        return [e.get("id") for e in self.fact_elements() if e.get("contextRef") == c]

    def facts_of_unit(self, u):
        return [e.get("id") for e in self.fact_elements() if e.get("unitRef") == u]

    def schema_elements(self):
        return [(t, e) for t in self.trees.values() if t.tag == XS + "schema" for e in t.iter(XS + "element")
                if e.get("substitutionGroup")]

    def extended(self):
        return [e for t in self.trees.values() for e in t.iter() if isinstance(e.tag, str) and e.get(XLINK + "type") == "extended"]

    def target(self, loc):
        """What a locator (or resource) stands for in the views."""
        if loc.get(XLINK + "type") == "resource":
            return ["resource", "".join(loc.itertext())]
        f, _, i = loc.get(XLINK + "href").partition("#")
        t = self.trees[f] if f else self.inst()
        e = [x for x in t.iter() if isinstance(x.tag, str) and x.get("id") == i][0]
        if t.tag == XS + "schema":
            return ["element", "{%s}%s" % (t.get("targetNamespace"), e.get("name"))]
        return ["fact", i]

    def key(self, link):
        return (etree.QName(link).localname.replace("Link", ""), link.get(XLINK + "role"))

    def touch_label(self, link, label):
        for e in link:
            if e.get(XLINK + "label") == label:
                self.gone.setdefault(self.key(link), []).append(json.dumps(self.target(e)))

    def touch_arc(self, link, arc):
        for f in link:
            for t in link:
                if f.get(XLINK + "label") == arc.get(XLINK + "from") and t.get(XLINK + "label") == arc.get(XLINK + "to"):
                    self.gone.setdefault(self.key(link), []).append(json.dumps([self.target(f), self.target(t)]))
                    if t.get(XLINK + "type") == "resource" and self.target(f)[0] == "element":
                        self.elements.add(self.target(f)[1] + " labels")

    def files(self):
        return {**{n: etree.tostring(t, encoding="UTF-8", xml_declaration=True) for n, t in self.trees.items()}, **self.broken}


def defect(name):
    def reg(f):
        KINDS[name] = f
        return f
    return reg


def pick(xs, n):
    xs = [x for x in xs if x.get("_damaged") is None]
    return xs[n % len(xs)] if xs else None


def on_fact(name, change, where=lambda e: True):
    @defect("fact: " + name)
    def f(doc, n):
        e = pick([e for e in doc.fact_elements() if where(e)], n)
        if e is None:
            return False
        doc.facts.add(e.get("id"))
        doc.at = e
        change(doc, e)
        return True


on_fact("unknown name", lambda d, e: setattr(e, "tag", "{%s}NoSuchConcept" % etree.QName(e).namespace))
on_fact("unknown namespace", lambda d, e: setattr(e, "tag", "{http://nowhere.example.com}X"))
on_fact("unknown context", lambda d, e: e.set("contextRef", gen.nosuch(e)))
on_fact("unknown unit", lambda d, e: e.set("unitRef", gen.nosuch(e)), lambda e: e.get("unitRef"))
on_fact("bad decimals", lambda d, e: e.set("decimals", "two"), lambda e: e.get("unitRef"))
on_fact("bad precision", lambda d, e: e.set("precision", "1.5x"), lambda e: e.get("unitRef"))


def on_context(name, change, where=lambda e: True):
    @defect("context: " + name)
    def f(doc, n):
        e = pick([e for e in doc.inst().iter(XBRLI + "context") if doc.facts_of_context(e.get("id")) and where(e) and e not in doc.contexts], n)
        if e is None:
            return False
        doc.contexts.append(e)
        doc.facts.update(doc.facts_of_context(e.get("id")))
        doc.at = e
        change(doc, e)
        return True


def find(e, path):
    return e.find(path, {"x": xw.XBRLI, "d": xw.XBRLDI})


def drop(e):
    e.getparent().remove(e)


def set_text(e, path, text):
    find(e, path).text = text


on_context("no period", lambda d, e: drop(find(e, "x:period")))
on_context("no entity", lambda d, e: drop(find(e, "x:entity")))
on_context("no identifier", lambda d, e: drop(find(e, "x:entity/x:identifier")))
on_context("no scheme", lambda d, e: find(e, "x:entity/x:identifier").attrib.pop("scheme"))
on_context("no identifier text", lambda d, e: set_text(e, "x:entity/x:identifier", None))
on_context("no id", lambda d, e: e.attrib.pop("id"))
on_context("empty period", lambda d, e: [drop(x) for x in list(find(e, "x:period"))])
on_context("bad instant", lambda d, e: set_text(e, ".//x:instant", "2024-13-01"), lambda e: find(e, ".//x:instant") is not None)
on_context("empty instant", lambda d, e: set_text(e, ".//x:instant", None), lambda e: find(e, ".//x:instant") is not None)
on_context("bad start", lambda d, e: set_text(e, ".//x:startDate", "yesterday"), lambda e: find(e, ".//x:startDate") is not None)
on_context("no start", lambda d, e: drop(find(e, ".//x:startDate")), lambda e: find(e, ".//x:startDate") is not None)
on_context("no end", lambda d, e: drop(find(e, ".//x:endDate")), lambda e: find(e, ".//x:endDate") is not None)
on_context("start after end", lambda d, e: set_text(e, ".//x:startDate", "2999-01-01"), lambda e: find(e, ".//x:startDate") is not None)
EXP = (lambda e: find(e, ".//d:explicitMember") is not None)
TYP = (lambda e: find(e, ".//d:typedMember") is not None)
on_context("unknown dimension", lambda d, e: find(e, ".//d:explicitMember").set("dimension", "a:NoSuchAxis"), EXP)
on_context("no dimension attribute", lambda d, e: find(e, ".//d:explicitMember").attrib.pop("dimension"), EXP)
on_context("unknown member", lambda d, e: set_text(e, ".//d:explicitMember", "a:NoSuchMember"), EXP)
on_context("no member", lambda d, e: set_text(e, ".//d:explicitMember", None), EXP)
on_context("unknown typed dimension", lambda d, e: find(e, ".//d:typedMember").set("dimension", "a:NoSuchAxis"), TYP)
on_context("no typed dimension attribute", lambda d, e: find(e, ".//d:typedMember").attrib.pop("dimension"), TYP)
on_context("no typed value", lambda d, e: [drop(x) for x in list(find(e, ".//d:typedMember"))], TYP)
on_context("empty typed value", lambda d, e: setattr(find(e, ".//d:typedMember")[0], "text", None), TYP)
on_context("strange segment", lambda d, e: find(e, ".//x:segment").append(etree.Element("{http://nowhere.example.com}seg")),
           lambda e: find(e, ".//x:segment") is not None)


def on_unit(name, change, where=lambda e: True):
    @defect("unit: " + name)
    def f(doc, n):
        e = pick([e for e in doc.inst().iter(XBRLI + "unit") if doc.facts_of_unit(e.get("id")) and where(e) and e not in doc.units], n)
        if e is None:
            return False
        doc.units.append(e)
        doc.facts.update(doc.facts_of_unit(e.get("id")))
        doc.at = e
        change(doc, e)
        return True


on_unit("empty", lambda d, e: [drop(x) for x in list(e)])
on_unit("no id", lambda d, e: e.attrib.pop("id"))
on_unit("empty measure", lambda d, e: set_text(e, ".//x:measure", None))
on_unit("measure of unknown prefix", lambda d, e: set_text(e, ".//x:measure", "nosuch:" + find(e, ".//x:measure").text.split(":")[-1]))
on_unit("denominator twice", lambda d, e: find(e, "x:divide").append(deepcopy(find(e, "x:divide/x:unitDenominator"))), lambda e: find(e, "x:divide") is not None)
on_unit("no numerator", lambda d, e: setattr(find(e, "x:divide/x:unitNumerator"), "tag", XBRLI + "unitDenominator"), lambda e: find(e, "x:divide") is not None)
on_unit("strange part", lambda d, e: setattr(find(e, "x:divide")[-1], "tag", "{http://nowhere.example.com}part"), lambda e: find(e, "x:divide") is not None)
on_unit("no denominator", lambda d, e: drop(find(e, "x:divide/x:unitDenominator")), lambda e: find(e, "x:divide") is not None)
on_unit("strange child", lambda d, e: e.append(etree.Element("{http://nowhere.example.com}m")))


def on_element(name, change, where=lambda e: True):
    @defect("element: " + name)
    def f(doc, n):
        cs = [(t, e) for t, e in doc.schema_elements() if where(e)]
        e = pick([e for _, e in cs], n)
        if e is None:
            return False
        t = [t for t, x in cs if x is e][0]
        name = "{%s}%s" % (t.get("targetNamespace"), e.get("name"))
        doc.elements.add(name)
        doc.facts.update(x.get("id") for x in doc.fact_elements() if x.tag == name)
        for c in doc.inst().iter(XBRLI + "context"):
            for x in c.iter("{%s}explicitMember" % xw.XBRLDI, "{%s}typedMember" % xw.XBRLDI):
                qs = [x.get("dimension") or "", (x.text or "").strip()]
                if any(q.split(":")[-1] == e.get("name") for q in qs):
                    doc.facts.update(doc.facts_of_context(c.get("id")))
        doc.at = e
        change(doc, e)
        return True


CONCEPT = (lambda e: e.get("abstract") is None and e.get("substitutionGroup") == "xbrli:item")
on_element("no period type", lambda d, e: e.attrib.pop("{%s}periodType" % xw.XBRLI), CONCEPT)
on_element("bad period type", lambda d, e: e.set("{%s}periodType" % xw.XBRLI, "forever"), CONCEPT)
on_element("bad balance", lambda d, e: e.set("{%s}balance" % xw.XBRLI, "both"), CONCEPT)
on_element("bad nillable", lambda d, e: e.set("nillable", "maybe"), CONCEPT)
on_element("no type", lambda d, e: e.attrib.pop("type"), CONCEPT)
on_element("unknown typed domain", lambda d, e: e.set("{%s}typedDomainRef" % xw.XBRLDT, "#" + gen.nosuch(e)),
           lambda e: e.get("{%s}typedDomainRef" % xw.XBRLDT))


HAS_FACTS = [False]


def on_link(name, part, change, where=lambda l, e: True, touch=None):
    @defect("link: " + name)
    def f(doc, n):
        HAS_FACTS[0] = bool(doc.fact_elements())
        cs = [(l, e) for l in doc.extended() if l.get(XLINK + "role") for e in l if e.get(XLINK + "type") in part and where(l, e)]
        e = pick([e for _, e in cs], n)
        if e is None:
            return False
        l = e.getparent()
        if e.get(XLINK + "type") == "arc":
            doc.touch_arc(l, e)
        else:
            label = e.get(XLINK + "label")
            doc.touch_label(l, label)
            for a in l:
                if label in (a.get(XLINK + "from"), a.get(XLINK + "to")):
                    doc.touch_arc(l, a)
        doc.at = e
        change(doc, e)
        return True


def kind_in(*kinds):
    return lambda l, e: etree.QName(l).localname.replace("Link", "") in kinds


TREES = kind_in("presentation", "calculation", "definition")
on_link("arc from nowhere", ["arc"], lambda d, e: e.set(XLINK + "from", gen.nosuch(e)))
on_link("arc to nowhere", ["arc"], lambda d, e: e.set(XLINK + "to", gen.nosuch(e)))
on_link("arc without from", ["arc"], lambda d, e: e.attrib.pop(XLINK + "from"))
on_link("arc without to", ["arc"], lambda d, e: e.attrib.pop(XLINK + "to"))
on_link("arc without arc role", ["arc"], lambda d, e: e.attrib.pop(XLINK + "arcrole"))
on_link("bad order", ["arc"], lambda d, e: e.set("order", "first"), TREES)
on_link("bad weight", ["arc"], lambda d, e: e.set("weight", "heavy"), kind_in("calculation"))
on_link("locator to nothing", ["locator"], lambda d, e: e.set(XLINK + "href", e.get(XLINK + "href").split("#")[0] + "#" + gen.nosuch(e)))
on_link("locator without href", ["locator"], lambda d, e: e.attrib.pop(XLINK + "href"))
on_link("locator without label", ["locator"], lambda d, e: e.attrib.pop(XLINK + "label"))
on_link("locator to a role type", ["locator"], lambda d, e: e.set(XLINK + "href", "s0.xsd#A"))
on_link("locator to a fact", ["locator"], lambda d, e: e.set(XLINK + "href", "i.xml#" + d.fact_elements()[0].get("id")),
        lambda l, e: not kind_in("footnote")(l, e) and HAS_FACTS[0])
on_link("abstract in a calculation", ["locator"], lambda d, e: e.set(XLINK + "href", "s0.xsd#an_abstract"), kind_in("calculation"))
on_link("resource without label", ["resource"], lambda d, e: e.attrib.pop(XLINK + "label"))
on_link("no language", ["resource"], lambda d, e: e.attrib.pop("{http://www.w3.org/XML/1998/namespace}lang"), kind_in("label", "footnote"))
on_link("strange resource", ["resource"], lambda d, e: setattr(e, "tag", LINK + "remark"))


@defect("link: no role")
def _no_role(doc, n):
    l = pick([l for l in doc.extended() if l.get(XLINK + "role")], n)
    if l is None:
        return False
    doc.at = l
    doc.links.add(doc.key(l))
    if l.tag == LINK + "labelLink":
        doc.elements.update(doc.target(e)[1] + " labels" for e in l if e.get(XLINK + "type") == "locator")
    l.attrib.pop(XLINK + "role")
    return True


@defect("link: duplicate arc")
def _duplicate_arc(doc, n):
    a = pick([a for l in doc.extended() if l.get(XLINK + "role") for a in l if a.get(XLINK + "type") == "arc"], n)
    if a is None:
        return False
    a.addnext(deepcopy(a))
    doc.at = a.getnext()
    return True


@defect("link: arcs in a circle")
def _circle(doc, n):
    """An arc from a node back to one of those it is below, or to itself. Last in its link, it is the one that is left out."""
    links = [l for l in doc.extended() if l.get(XLINK + "role") and TREES(l, None) and any(e.get(XLINK + "type") == "arc" for e in l)]
    l = pick(links, n)
    if l is None:
        return False
    arcs = [e for e in l if e.get(XLINK + "type") == "arc"]
    from copy import deepcopy
    a = arcs[n % len(arcs)]
    c = deepcopy(a)
    top = a.get(XLINK + "to")
    for _ in range(n % 4):
        up = [x.get(XLINK + "from") for x in arcs if x.get(XLINK + "to") == top]
        if not up:
            break
        top = up[0]
    c.set(XLINK + "from", a.get(XLINK + "to"))
    c.set(XLINK + "to", top)
    l.append(c)
    doc.at = c
    doc.touch_arc(l, c)
    return True


@defect("role type: no URI")
def _role_type(doc, n):
    e = pick([e for t in doc.trees.values() for e in t.iter(LINK + "roleType") if e.get("roleURI")], n)
    if e is None:
        return False
    doc.at = e
    doc.removed.add(e.attrib.pop("roleURI"))
    return True


@defect("document: missing")
def _missing(doc, n):
    e = etree.SubElement(doc.inst(), LINK + "linkbaseRef")
    e.set(XLINK + "type", "simple")
    e.set(XLINK + "href", "nosuch.xml")
    e.set(XLINK + "arcrole", "http://www.w3.org/1999/xlink/properties/linkbase")
    doc.inst().insert(0, e)
    return True


@defect("document: not XML")
def _not_xml(doc, n):
    _missing(doc, n)
    doc.inst()[0].set(XLINK + "href", "broken.xml")
    doc.broken["broken.xml"] = [b"", b"<a>", b"no markup", b"<a></b>"][n % 4]
    return True


@defect("document: other format")
def _pdf(doc, n):
    _missing(doc, n)
    doc.inst()[0].set(XLINK + "href", "other.pdf")
    doc.broken["other.pdf"] = b"%PDF-1.4"
    return True


def _catalog(name, change):
    @defect("catalog: " + name)
    def _f(doc, n):
        t = doc.trees.get(CATALOG)
        if t is None or CATALOG in doc.broken:
            return False
        doc.at = t[n % 2]
        change(doc, n)
        return True


@defect("catalog: not XML")
def _catalog_not_xml(doc, n):
    if CATALOG not in doc.trees:
        return False
    doc.broken[CATALOG] = [b"", b"<catalog", b"no markup", b"<catalog xmlns='urn:oasis:names:tc:entity:xmlns:xml:catalog'>"][n % 4]
    return True


@defect("catalog: other root")
def _catalog_root(doc, n):
    t = doc.trees.get(CATALOG)
    if t is None or CATALOG in doc.broken:
        return False
    doc.at = t
    t.tag = ["{urn:other}catalog", "{urn:oasis:names:tc:entity:xmlns:xml:catalog}catalogue"][n % 2]
    return True


_catalog("no prefix", lambda doc, n: doc.at.attrib.pop("rewritePrefix"))
_catalog("no start", lambda doc, n: doc.at.attrib.pop("uriStartString"))
_catalog("same start twice", lambda doc, n: doc.trees[CATALOG][1].set("uriStartString", doc.trees[CATALOG][0].get("uriStartString")))

# those that few filings have a place for are tried more often
WEIGHTED = sorted(KINDS) + 3 * sorted(k for k in KINDS if "typed" in k or "context: " in k and ("member" in k or "dimension" in k or " end" in k)
                                      or k.startswith(("unit: no d", "unit: no n", "unit: den", "unit: strange p", "catalog: ")) or "abstract in" in k or "decimals" in k or "circle" in k)


# ------------------------------------------------------------------ views

def node_key(node):
    if node.points_to() == "report element":
        return json.dumps(["element", obs.clark(node.get_report_element().get_name())])
    if node.points_to() == "fact":
        return json.dumps(["fact", node.get_fact().get_id()])
    r = node.get_resource()
    c = r.get_content()
    return json.dumps(["resource", "".join(c.values()) if isinstance(c, dict) else c])


def _view(filing):
    v = {"nets": {}}
    with under_test("reading the report"):
        v["facts"] = {f["id"]: f for f in obs.facts_view(filing)}
        v["elements"] = {e["name"]: e for e in obs.elements_view(filing)}
        networks = list(filing.get_all_physical_networks())
        v["components"] = {c.get_URI(): c.get_info() for c in filing.get_all_components()}
        for c in filing.get_all_components():
            networks += c.get_networks()
        for n in networks:
            edges, roots = v["nets"].setdefault((obs.net_kind(n), n.get_link_role()), [set(), set()])

            def walk(x, depth=0):
                expect(depth < 50, "a network became cyclic")
                for c in x.get_children():
                    w = float(c.get_weight()) if hasattr(c, "get_weight") else None
                    edges.add((node_key(x), node_key(c), c.get_arc_role(), float(c.get_order()), w))
                    walk(c, depth + 1)

            for r in n.get_roots():
                roots.add(node_key(r))
                walk(r)
    return v


def check(m):
    labels = set()
    files = _files(m)
    sound = obs.open_files(files, entry_of(m), "opening the sound filing")
    before = _view(sound)
    obs.expect_no_errors(sound, "the sound filing")
    doc = Doc(files)
    done = []
    for kind, n in m["defects"]:
        try:
            ok = KINDS[kind](doc, n)
        except (KeyError, AttributeError, IndexError, TypeError):
            ok = False  # an earlier defect has already damaged this part
            if not done:
                raise
        if ok:
            done.append(kind)
            labels.add(kind)
    if not done:
        return labels
    with_defects = obs.open_files(doc.files(), entry_of(m), f"opening the filing with the defects {done}")
    after = _view(with_defects)
    errors = obs.errors_of(with_defects)
    expect(len(errors) > 0, lambda: f"the defects {done} were not reported")
    for e in errors:
        expect(str(e) and not re.search(r"\{[a-z_]+\}", e.get_message()), lambda: f"the message of an error is incomplete: {e}")
    bare = {e.split(" ")[0] for e in doc.elements if not e.endswith(" labels")}
    relabelled = {e.split(" ")[0] for e in doc.elements if e.endswith(" labels")}

    def keep(view, what, touched):
        return {k: x for k, x in view[what].items() if k not in touched}

    expect_eq(keep(after, "facts", doc.facts), keep(before, "facts", doc.facts), f"facts that the defects {done} do not touch")
    e0, e1 = keep(before, "elements", bare), keep(after, "elements", bare)
    for v in (e0, e1):
        for x in relabelled & set(v):
            v[x] = {**v[x], "labels": None}
    expect_eq(e1, e0, f"report elements that the defects {done} do not touch")
    expect_eq(after["components"], {k: x for k, x in before["components"].items() if k not in doc.removed},
              f"components that the defects {done} do not touch")
    dead = {json.dumps(["element", x]) for x in bare} | {json.dumps(["fact", x]) for x in doc.facts}
    untouched = 0
    for key, (edges, roots) in before["nets"].items():
        if key in doc.links or key[1] in doc.removed:
            continue
        gone = set(doc.gone.get(key, []))

        def sound_edge(e):
            return not ({e[0], e[1]} & (dead | gone)) and json.dumps([json.loads(e[0]), json.loads(e[1])]) not in gone

        want = {e for e in edges if sound_edge(e)}
        got_edges, got_roots = after["nets"].get(key, [set(), set()])
        untouched += len(want)
        missing = want - got_edges
        if missing:
            raise Violation(f"the defects {done} cost the arcs {sorted(missing)[:3]} of the {key[0]} network {key[1]}")
        extra = {e for e in got_edges - edges if sound_edge(e)}
        if extra:
            raise Violation(f"the defects {done} added the arcs {sorted(extra)[:3]} to the {key[0]} network {key[1]}")
        lost_parent = {e[1] for e in edges if not sound_edge(e)}
        missing_roots = {r for r in roots if r not in dead | gone} - got_roots
        # a root whose only arcs were defective may go; one that still has an arc stays
        missing_roots = {r for r in missing_roots if any(e[0] == r for e in want)}
        if missing_roots:
            raise Violation(f"the defects {done} cost the roots {sorted(missing_roots)} of the {key[0]} network {key[1]}")
        extra_roots = got_roots - roots - lost_parent - dead - gone
        if extra_roots:
            raise Violation(f"the defects {done} added the roots {sorted(extra_roots)} to the {key[0]} network {key[1]}")
    if m["folder"]:
        labels.add("folder")
    if len(done) > 1:
        labels.add("several defects")
    labels.discard("")
    if untouched and set(before["facts"]) - doc.facts:
        labels.add("sound parts")
    return labels


def nontrivial(m, labels):
    return "sound parts" in labels


MUST_HIT = sorted(KINDS) + ["several defects", "folder"]
