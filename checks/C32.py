"""C32  A defect in an inline page is reported and costs nothing else."""
import re
from copy import deepcopy

from hypothesis import strategies as st
from lxml import etree

from lib import gen, ix, obs, xw
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C32"
QUICK = 5000
THOROUGH = 60000
RULE = ("an inline page with up to 8 facts (numbers with scale, sign, format and nesting, texts with continuations, dates), footnotes, "
        "relationships, hidden facts and dimensions, and the same with 1-3 defects of some 60 kinds in its facts, continuations, footnotes, "
        "relationships, contexts, units, header and role references; both are opened and whatever no defect touches is compared; "
        "non-trivial = the page has a fact that no defect touches")


# ------------------------------------------------------------------ the sound page

@st.composite
def _case(draw, tier):
    facts = []
    for i in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["num", "num", "num", "text", "text", "date", "nest"]))
        f = {"kind": k, "ctx": draw(st.integers(0, 2)), "hidden": draw(st.integers(0, 5)) == 0, "n": draw(st.integers(0, 99999))}
        if k in ("num", "nest"):
            f["scale"] = draw(st.sampled_from([None, None, "0", "3", "-2"]))
            f["sign"] = draw(st.sampled_from([None, None, "-"]))
            f["acc"] = draw(st.sampled_from([None, ["decimals", "2"], ["decimals", "INF"], ["decimals", "-3"], ["precision", "4"]]))
            f["format"] = draw(st.booleans())
        if k == "text":
            f["parts"] = draw(st.lists(gen.plain_text1, min_size=1, max_size=3))
            f["escape"] = draw(st.sampled_from([None, None, None, "true", "false", "1", "0"]))
        facts.append(f)
    feet = [{"parts": draw(st.lists(gen.plain_text1, min_size=1, max_size=2)), "lang": draw(st.sampled_from([None, "en", "de"])),
             "role": draw(st.sampled_from([None, "http://example.com/role/foot"]))} for _ in range(draw(st.integers(0, 3)))]
    rels, taken = [], set()
    for _ in range(draw(st.integers(0, 4))):
        role = draw(st.sampled_from([None, "http://example.com/role/A"]))
        s = draw(st.lists(st.integers(0, len(facts) - 1), min_size=1, max_size=2, unique=True))
        if not feet:
            continue
        t = draw(st.lists(st.integers(0, len(feet) - 1), min_size=1, max_size=2, unique=True))
        edges = {(role, a, b) for a in s for b in t}
        if edges & taken:
            continue
        taken |= edges
        rels.append({"from": [f"f{i}" for i in s], "to": [f"n{i}" for i in t], "linkRole": role, "order": draw(st.sampled_from([None, "1", "2.5"]))})
    defects = [[gen.evenly(draw, WEIGHTED), draw(st.integers(0, 50))]
               for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    return {"facts": facts, "feet": feet, "rels": rels, "defects": defects, "lay": draw(st.integers(0, 4)),
            "lang": draw(st.sampled_from(["en", "en", "fr"])), "roleRefs": draw(st.booleans())}


def strategy(tier):
    return _case(tier)


TAX = {"file": "t.xsd", "ns": "http://example.com/tax", "prefix": "t", "elements": [
    {"name": "Text", "id": "t_Text", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "duration", "nillable": "true"},
    {"name": "Number", "id": "t_Number", "type": "xbrli:decimalItemType", "sg": "xbrli:item", "periodType": "duration", "nillable": "true"},
    {"name": "Day", "id": "t_Day", "type": "xbrli:dateItemType", "sg": "xbrli:item", "periodType": "duration", "nillable": "true"},
    {"name": "TheAxis", "id": "t_TheAxis", "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem", "abstract": "true", "periodType": "duration"},
    {"name": "TheMember", "id": "t_TheMember", "type": "nonnum:domainItemType", "sg": "xbrli:item", "abstract": "true", "periodType": "duration"}],
    "roles": [{"uri": "http://example.com/role/A", "id": "A", "usedOn": ["link:footnoteLink"]}]}


def page_of(m):
    body, hidden, pieces = [], [], []
    for i, f in enumerate(m["facts"]):
        a = {"id": f"f{i}", "contextRef": f"c{f['ctx']}"}
        if f["kind"] in ("num", "nest"):
            a.update({"name": "t:Number", "unitRef": "usd"})
            for k in ("scale", "sign"):
                if f[k]:
                    a[k] = f[k]
            if f["acc"]:
                a[f["acc"][0]] = f["acc"][1]
            if f["format"]:
                a["format"] = "ixt:num-dot-decimal"
            inner = [str(f["n"])]
            if f["kind"] == "nest":
                b = {k: v for k, v in a.items() if k in ("unitRef", "scale", "format", "name")}
                inner = [{"ix": "nonFraction", "a": {**b, "id": f"f{i}n", "contextRef": f"c{(f['ctx'] + 1) % 3}"}, "c": inner}]
            node = {"ix": "nonFraction", "a": a, "c": inner}
        elif f["kind"] == "date":
            node = {"ix": "nonNumeric", "a": {**a, "name": "t:Day", "format": "ixt:date-day-month-year"},
                    "c": [f"{f['n'] % 28 + 1}.{f['n'] % 12 + 1}.20{f['n'] % 90 + 10}"]}
        else:
            a["name"] = "t:Text"
            if f["escape"]:
                a["escape"] = f["escape"]
            if len(f["parts"]) > 1:
                a["continuedAt"] = f"f{i}_1"
            node = {"ix": "nonNumeric", "a": a, "c": [f["parts"][0]]}
            pieces += [(f"f{i}_{k}", f"f{i}_{k + 1}" if k + 1 < len(f["parts"]) else None, p) for k, p in enumerate(f["parts"]) if k]
        if f["hidden"]:
            hidden.append(node)
        else:
            body.append(ix.wrap(node, m["lay"] + i))
    for i, x in enumerate(m["feet"]):
        a = {"id": f"n{i}"}
        for k, v in [("xml:lang", x["lang"]), ("footnoteRole", x["role"]), ("continuedAt", f"n{i}_1" if len(x["parts"]) > 1 else None)]:
            if v:
                a[k] = v
        body.append(ix.wrap({"ix": "footnote", "a": a, "c": [x["parts"][0]]}, i))
        pieces += [(f"n{i}_{k}", None, p) for k, p in enumerate(x["parts"]) if k]
    for pid, nxt, text in pieces:
        body.append(ix.wrap({"ix": "continuation", "a": {"id": pid, **({"continuedAt": nxt} if nxt else {})}, "c": [text]}, m["lay"]))
    raw = ""
    if m["roleRefs"]:
        raw = ('<link:roleRef roleURI="http://example.com/role/A" xlink:type="simple" xlink:href="t.xsd#A"/>'
               '<link:arcroleRef arcroleURI="http://example.com/arcrole/note" xlink:type="simple" xlink:href="t.xsd#note"/>')
    ctx = [*ix.CTX, {**ix.CTX[0], "id": "c2", "dims": [{"kind": "explicit", "dim": "t:TheAxis", "value": "t:TheMember"}]}]
    return {"ns": {"t": TAX["ns"], "ixt": ix.TR[5]}, "refs": [["schema", "t.xsd"]], "contexts": ctx, "units": ix.UNIT + [{"id": "eur", "num": ["iso4217:EUR"], "den": []}], "lang": m["lang"],
            "hidden": hidden, "body": body, "raw_resources": raw,
            "relationships": [{**r, "from": " ".join(r["from"]), "to": " ".join(r["to"])} for r in m["rels"]]}


# ------------------------------------------------------------------ the defects

IX, XBRLI, XLINK, LINK, XHTML = ("{%s}" % u for u in (ix.IX, xw.XBRLI, xw.XLINK, xw.LINK, ix.XHTML))
LANG = "{http://www.w3.org/XML/1998/namespace}lang"
NIL = "{%s}nil" % xw.XSI
KINDS = {}


class Doc:
    """The page, what the defects in it touch, and what should be said about them: [code, element, what the message names]."""

    def __init__(self, m):
        self.root = etree.fromstring(ix.page_xml(page_of(m)).encode())
        self.facts, self.feet, self.rels = set(), set(), set()
        PICKED.clear()
        self.expected = []

    def all(self, *names):
        return [e for e in self.root.iter(*[IX + n for n in names])]

    def one(self, name):
        return self.all(name)[0]

    def contexts(self, cid):
        return [e.get("id") for e in self.all("nonFraction", "nonNumeric") if e.get("contextRef") == cid]

    def say(self, code, element, *names):
        self.expected.append([code, element, names])
        return True

    def touch(self, e):
        """A fact, and those its text is shared with."""
        self.facts.add(e.get("id"))
        for x in [*e.iterancestors(IX + "nonFraction"), *e.iterdescendants(IX + "nonFraction", IX + "nonNumeric")]:
            self.facts.add(x.get("id"))

    def owner(self, continuation):
        """The fact or footnote whose chain a continuation is in."""
        ids = {e.get("continuedAt"): e for e in self.all("nonNumeric", "footnote", "continuation") if e.get("continuedAt")}
        e, seen = continuation, set()
        while e is not None and e.tag == IX + "continuation":
            if e in seen:
                return None  # (another defect made the chain a circle)
            seen.add(e)
            e = ids.get(e.get("id"))
        return e

    def touch_chain(self, e):
        if e is None:
            return
        (self.feet if e.tag == IX + "footnote" else self.facts).add(e.get("id"))

    def files(self):
        return {"t.xsd": xw.schema_xml(TAX), "p.xhtml": etree.tostring(self.root, encoding="UTF-8", xml_declaration=True)}


PICKED = []  # what the defects of the current document are in: only one for each element, as it may hide another one


def pick(xs, n):
    xs = [x for x in xs if x.get("id") != "damaged" and x not in PICKED]
    if not xs:
        return None
    PICKED.append(xs[n % len(xs)])
    return PICKED[-1]


def defect(name):
    def reg(f):
        KINDS[name] = f
        return f
    return reg


def on(name, tags, code, change, where=lambda e: True, at=lambda e: e, names=lambda e: [], touch=True):
    """A defect in one of the elements of these kinds; change may return something that is put into the message instead of names."""
    @defect(name)
    def f(doc, n):
        e = pick([x for x in doc.all(*tags) if where(x)], n)
        if e is None:
            return False
        if touch and e.tag == IX + "footnote":
            doc.feet.add(e.get("id"))
        elif touch and e.tag == IX + "relationship":
            doc.rels |= {(a, b) for a in (e.get("fromRefs") or "").split() for b in (e.get("toRefs") or "").split()}
        elif touch:
            doc.touch(e)
        said = names(e)
        change(e)
        return doc.say(code, at(e), *said)


FACT = ["nonFraction", "nonNumeric"]
PLAIN = lambda e: e.tag == IX + "nonFraction" and not len(e) and e.getparent().tag != IX + "nonFraction"  # noqa: E731
TEXT = lambda e: e.get("name") == "t:Text"  # noqa: E731
on("fact: unknown concept", FACT, "E-INI-504", lambda e: e.set("name", "t:NoSuchConcept"), names=lambda e: [e.get("id"), "t:NoSuchConcept"])
on("fact: not a concept", FACT, "E-INI-504", lambda e: e.set("name", "t:TheAxis"), names=lambda e: [e.get("id"), "t:TheAxis"])
on("fact: unknown prefix", FACT, "E-INI-504", lambda e: e.set("name", "nosuch:Text"), names=lambda e: [e.get("id"), "nosuch:Text"])
on("fact: no name", FACT, "E-INI-503", lambda e: e.attrib.pop("name"), names=lambda e: [e.get("id")])
on("fact: unknown context", FACT, "E-INI-501", lambda e: e.set("contextRef", gen.nosuch(e)), names=lambda e: ["nosuch"])
on("fact: no context", FACT, "E-INI-500", lambda e: e.attrib.pop("contextRef"), names=lambda e: [e.get("id")])
on("number: unknown unit", FACT, "E-INI-502", lambda e: e.set("unitRef", gen.nosuch(e)), PLAIN, names=lambda e: [e.get("id"), "nosuch"])
on("number: no unit", FACT, "W-INI-505", lambda e: e.attrib.pop("unitRef"), PLAIN, names=lambda e: [e.get("id")])
on("number: words", FACT, "E-INI-513", lambda e: setattr(e, "text", "many"), lambda e: PLAIN(e) and not e.get("format"), names=lambda e: ["many"])
on("number: words in a format", FACT, "E-INI-621", lambda e: setattr(e, "text", "many"), lambda e: PLAIN(e) and e.get("format"), names=lambda e: ["many"])
on("number: blank", FACT, "E-INI-513", lambda e: setattr(e, "text", "\n "), lambda e: PLAIN(e) and not e.get("format"))
for i, text in enumerate([" ", " , ", "\u00a0"]):
    on(f"number: no digits in a format {i}", FACT, "E-INI-621", lambda e, text=text: setattr(e, "text", text),
       lambda e: PLAIN(e) and e.get("format"), names=lambda e: ["num-dot-decimal"])
on("number: negative", FACT, "W-INI-514", lambda e: setattr(e, "text", "-7"), lambda e: PLAIN(e) and not e.get("format"), names=lambda e: ["-7"])
on("number: unknown format", FACT, "E-INI-620", lambda e: e.set("format", "ixt:num-" + gen.nosuch(e, ":")), PLAIN, names=lambda e: ["num-", "nosuch"])
on("number: format of unknown prefix", FACT, "E-INI-620", lambda e: e.set("format", "nosuch:form"), PLAIN, names=lambda e: ["form"])
on("number: bad scale", FACT, "W-INI-622", lambda e: e.set("scale", "three"), PLAIN, names=lambda e: ["three"])
on("number: bad sign", FACT, "E-INI-510", lambda e: e.set("sign", "+"), PLAIN, names=lambda e: ["'+'"])
on("number: bad decimals", FACT, "W-ING-018", lambda e: e.set("decimals", "two"), lambda e: PLAIN(e) and not e.get("precision"), names=lambda e: ["two"])
on("number: bad precision", FACT, "W-ING-017", lambda e: e.set("precision", "two"), lambda e: PLAIN(e) and not e.get("decimals"), names=lambda e: ["two"])
on("number: decimals and precision", FACT, "E-INI-506", lambda e: [e.set("decimals", "2"), e.set("precision", "3")], PLAIN)
on("number: decimals and nil", FACT, "E-INI-506", lambda e: [e.set("decimals", "2"), e.set(NIL, "true"), setattr(e, "text", None)],
   lambda e: PLAIN(e) and not e.get("precision"))
on("number: text and nil", FACT, "E-INI-508", lambda e: e.set(NIL, "true"), lambda e: PLAIN(e) and not e.get("precision") and not e.get("decimals"))
on("number: nothing", FACT, "E-INI-509", lambda e: setattr(e, "text", None), PLAIN)
on("number: text and child", FACT, "E-INI-507", lambda e: setattr(e, "text", "5"), lambda e: e.tag == IX + "nonFraction" and len(e))
on("number: in a paragraph", FACT, "E-INI-512", lambda e: setattr(e[0], "tag", XHTML + "b"), lambda e: e.tag == IX + "nonFraction" and len(e),
   names=lambda e: ["b"])
on("number: two children", FACT, "W-INI-511", lambda e: etree.SubElement(e, XHTML + "b"), lambda e: e.tag == IX + "nonFraction" and len(e))
on("number: other scale in child", FACT, "W-INI-516", lambda e: e[0].set("scale", "5"), lambda e: e.tag == IX + "nonFraction" and len(e),
   names=lambda e: ["5"])
on("number: other format in child", FACT, "W-INI-516", lambda e: e[0].set("format", "ixt:num-dot-decimal"),
   lambda e: e.tag == IX + "nonFraction" and len(e) and not e.get("format"), names=lambda e: ["num-dot-decimal"])
on("number: other unit in child", FACT, "W-INI-516", lambda e: e[0].set("unitRef", "eur"),
   lambda e: e.tag == IX + "nonFraction" and len(e), names=lambda e: ["eur"])
on("number: nil in child", FACT, "W-INI-515", lambda e: e[0].set(NIL, "true"), lambda e: e.tag == IX + "nonFraction" and len(e), at=lambda e: e[0])
on("text: bad escape", FACT, "W-INI-530", lambda e: e.set("escape", "perhaps"), TEXT, names=lambda e: ["perhaps"])
on("text: unknown format", FACT, "E-INI-608", lambda e: e.set("format", "ixt:" + gen.nosuch(e, ":")), TEXT, names=lambda e: ["nosuch"])
on("text: format of unknown prefix", FACT, "E-INI-608", lambda e: e.set("format", "nosuch:form"), TEXT, names=lambda e: ["form"])
DAY = lambda e: e.get("name") == "t:Day"  # noqa: E731
on("date: no date", FACT, "E-INI-601", lambda e: setattr(e, "text", "some day"), DAY, names=lambda e: ["some day"])
on("date: no such day", FACT, "E-INI-606", lambda e: setattr(e, "text", "31.2.2024"), DAY, names=lambda e: ["31.2.2024"])
on("date: no such month", FACT, "E-INI-6", lambda e: setattr(e, "text", "1.13.2024"), DAY, names=lambda e: ["1.13.2024"])
on("date: no such month name", FACT, "E-INI-6", lambda e: [e.set("format", "ixt:date-day-monthname-year-en"), setattr(e, "text", "1 Nonember 2024")],
   DAY, names=lambda e: ["1 Nonember 2024"])


@defect("fact: id used twice")
def _same_id(doc, n):
    fs = [e for e in doc.all(*FACT) if e.get("id")]
    if len(fs) < 2:
        return False
    a, b = fs[n % len(fs)], fs[(n + 1) % len(fs)]
    doc.touch(a)
    doc.touch(b)
    a.set("id", b.get("id"))
    return doc.say("E-INI-001", None, b.get("id"))


def _taken_id(kind, tags):
    @defect(f"fact: id of a {kind}")
    def _of(doc, n):
        fs = [e for e in doc.all(*FACT) if e.get("id")]
        xs = [x for x in doc.root.iter(*tags) if x.get("id")]
        if not fs or not xs:
            return False
        e, x = fs[n % len(fs)], xs[(n // 7) % len(xs)]
        if x in e.iter() or e in x.iter():
            return False
        doc.touch(e)
        e.set("id", x.get("id"))
        doc.touch(e)
        return doc.say("E-INI-001", None, x.get("id"))


_taken_id("context", [XBRLI + "context"])
_taken_id("unit", [XBRLI + "unit"])
_taken_id("continuation", [IX + "continuation"])
_taken_id("footnote", [IX + "footnote"])

on("chain: unknown continuation", ["nonNumeric", "footnote"], "E-INI-542", lambda e: e.set("continuedAt", gen.nosuch(e)),
   lambda e: TEXT(e) or e.tag == IX + "footnote", names=lambda e: ["nosuch", e.get("id")])


@defect("chain: continuation used twice")
def _reused(doc, n):
    cs = doc.all("continuation")
    es = [e for e in doc.all("nonNumeric") if TEXT(e) and not e.get("continuedAt")]
    if not cs or not es:
        return False
    e, c = es[n % len(es)], cs[(n // 7) % len(cs)]
    doc.facts.add(e.get("id"))
    o = doc.owner(c)
    e.set("continuedAt", c.get("id"))
    # the second of them in the page (facts before footnotes) is the one that uses it again
    order = [x for x in doc.all("nonNumeric")] + doc.all("footnote")
    return doc.say("W-INI-541", max([e, o], key=order.index) if o is not None else None, c.get("id"))


@defect("chain: back to itself")
def _loop(doc, n):
    c = pick([c for c in doc.all("continuation") if not c.get("continuedAt")], n)
    o = doc.owner(c) if c is not None else None
    if o is None:
        return False
    doc.touch_chain(o)
    c.set("continuedAt", [c.get("id"), o.get("continuedAt")][n % 2])
    return doc.say("W-INI-541", o, c.get("continuedAt"), o.get("id"))


@defect("chain: continuation without id")
def _no_cont_id(doc, n):
    c = pick(doc.all("continuation"), n)
    o = doc.owner(c) if c is not None else None
    if o is None:
        return False
    doc.touch_chain(o)
    c.attrib.pop("id")
    return doc.say("E-INI-540", c)


@defect("chain: continuation inside its fact")
def _descendant(doc, n):
    c = pick([c for c in doc.all("continuation") if doc.owner(c) is not None and doc.owner(c).get("continuedAt") == c.get("id")], n)
    if c is None:
        return False
    o = doc.owner(c)
    doc.touch_chain(o)
    o.append(c)
    return doc.say("E-INI-543", c, c.get("id"), o.get("id"))


@defect("chain: unused continuation")
def _unused(doc, n):
    p = pick(list(doc.root.iter(XHTML + "p", XHTML + "div", XHTML + "span")), n)
    if p is None or doc.root.find(".//*[@id='stray']") is not None:
        return False
    c = etree.SubElement(doc.root.find(XHTML + "body"), IX + "continuation")
    c.set("id", "stray")
    c.text = "left over"
    return doc.say("W-INI-544", c if len(doc.expected) == 0 else None, "stray")


on("footnote: no id", ["footnote"], "E-INI-550", lambda e: e.attrib.pop("id"))
on("footnote: bad role", ["footnote"], "E-INI-551", lambda e: e.set("footnoteRole", "http://[role"), names=lambda e: [e.get("id"), "http://[role"])


@defect("footnote: no language")
def _no_lang(doc, n):
    feet = [e for e in doc.all("footnote") if not e.get(LANG)]
    if not feet or doc.root.get(LANG) is None:
        return False
    doc.root.attrib.pop(LANG)
    for e in feet:
        doc.feet.add(e.get("id"))
        doc.say("E-INI-552", e, e.get("id"))
    return True


on("relationship: no sources", ["relationship"], "E-INI-560", lambda e: e.attrib.pop("fromRefs"))
on("relationship: no targets", ["relationship"], "E-INI-561", lambda e: e.attrib.pop("toRefs"))
on("relationship: bad order", ["relationship"], "E-INI-568", lambda e: e.set("order", "first"), names=lambda e: ["first"])
on("relationship: bad link role", ["relationship"], "E-INI-567", lambda e: e.set("linkRole", "http://[role"), names=lambda e: ["http://[role"])
on("relationship: bad arc role", ["relationship"], "E-INI-566", lambda e: e.set("arcrole", "http://[role"), names=lambda e: ["http://[role"])
on("relationship: unknown source", ["relationship"], "E-INI-563", lambda e: e.set("fromRefs", e.get("fromRefs") + " " + gen.nosuch(e)),
   names=lambda e: ["nosuch"], touch=False)
on("relationship: unknown target", ["relationship"], "E-INI-564", lambda e: e.set("toRefs", gen.nosuch(e) + " " + e.get("toRefs")),
   names=lambda e: ["nosuch"], touch=False)
on("relationship: source is a footnote", ["relationship"], "E-INI-563", lambda e: e.set("fromRefs", e.get("fromRefs") + " " + e.get("toRefs").split()[0]),
   names=lambda e: [e.get("toRefs").split()[0]])
on("relationship: to its own source", ["relationship"], "E-INI-562", lambda e: e.set("toRefs", e.get("toRefs") + " " + e.get("fromRefs").split()[0]))


def mixed(first):
    """A relationship to a footnote and to a fact."""
    def change(doc, n):
        feet = {e.get("id") for e in doc.all("footnote")}
        e = pick([e for e in doc.all("relationship") if set((e.get("toRefs") or "").split()) & feet and e.get("fromRefs")], n)
        if e is None:
            return False
        sources = {a for r in doc.all("relationship") for a in (r.get("fromRefs") or "").split()}
        fact = pick([f for f in doc.all("nonFraction", "nonNumeric") if f.get("id") not in {None, *sources}], n)
        if fact is None:
            return False
        e.set("toRefs", fact.get("id") + " " + e.get("toRefs") if first else e.get("toRefs") + " " + fact.get("id"))
        doc.rels |= {(a, b) for a in e.get("fromRefs").split() for b in e.get("toRefs").split()}
        return doc.say("W-INI-565", e)
    return change


defect("relationship: to a fact and a footnote")(mixed(True))
defect("relationship: to a footnote and a fact")(mixed(False))


def on_header(name, code, change, at, names=()):
    @defect("header: " + name)
    def f(doc, n):
        hs = doc.all("header")
        if not hs:
            return False
        h = hs[0]
        if change(doc, h) is False:
            return False
        return doc.say(code, at(doc, h), *names)


def strange(parent, tag="{http://nowhere.example.com}thing"):
    return etree.SubElement(parent, tag)


def child(name):
    def f(doc, h):
        c = h.find(IX + name)
        return c if c is not None else etree.SubElement(h, IX + name)
    return f


on_header("strange child", "W-INI-101", lambda d, h: strange(h), lambda d, h: h, ["thing"])
on_header("two hidden sections", "E-INI-102", lambda d, h: [child("hidden")(d, h), strange(h, IX + "hidden")], lambda d, h: h, ["2"])
on_header("empty references", "W-INI-200", lambda d, h: strange(h, IX + "references"), lambda d, h: h[-1])
on_header("strange reference", "W-INI-201", lambda d, h: strange(child("references")(d, h)), lambda d, h: h.find(IX + "references")[-1], ["thing"])
on_header("strange resource", "W-INI-301", lambda d, h: strange(child("resources")(d, h)), child("resources"), ["thing"])
on_header("strange hidden element", "W-INI-400", lambda d, h: strange(child("hidden")(d, h)), child("hidden"), ["thing"])
on_header("tuple", "W-INI-002", lambda d, h: strange(child("hidden")(d, h), IX + "tuple"), child("hidden"), ["ix:tuple"])


@defect("header: two resources")
def _two_resources(doc, n):
    rs = doc.all("resources")
    if len(rs) != 1:
        return False
    r = rs[0]
    other = etree.Element(IX + "resources")
    r.addnext(other)
    for c in list(r)[n % (len(r) + 1):]:
        other.append(c)
    return doc.say("E-INI-103", r.getparent(), "2")


@defect("header: in the head")
def _in_head(doc, n):
    hs = doc.all("header")
    head = doc.root.find(XHTML + "head")
    if not hs or hs[0].getparent() is head:
        return False
    head.append(hs[0])
    return doc.say("W-INI-100", head)


def everything(doc):
    doc.facts |= {e.get("id") for e in doc.all(*FACT)}


@defect("header: none")
def _no_header(doc, n):
    for h in doc.all("header"):
        everything(doc)
        h.getparent().remove(h)
    return doc.say("E-INI-104", None)


@defect("header: no resources")
def _no_resources(doc, n):
    for h in doc.all("resources"):
        everything(doc)
        h.getparent().remove(h)
    return doc.say("E-INI-300", None)


def on_context(name, code, change, path="", where=lambda c: True):
    @defect("context: " + name)
    def f(doc, n):
        c = pick([c for c in doc.root.iter(XBRLI + "context") if c.get("id") and where(c)], n)
        if c is None:
            return False
        doc.facts |= {i for i in doc.contexts(c.get("id"))}
        used = bool(doc.contexts(c.get("id")))
        change(c)
        if used or not path:
            doc.say(code, c.find(path, {"x": xw.XBRLI, "d": xw.XBRLDI}) if path else c)
        else:
            doc.say(code, None)
        return True


def find(c, path):
    return c.find(path, {"x": xw.XBRLI, "d": xw.XBRLDI})


on_context("no id", "E-INI-360", lambda c: c.attrib.pop("id"))
on_context("no period", "E-ING-000", lambda c: c.remove(find(c, "x:period")))
on_context("no entity", "E-ING-001", lambda c: c.remove(find(c, "x:entity")))
on_context("bad date", "E-ING-003", lambda c: setattr(find(c, "x:period")[0], "text", "2024-02-30"), "x:period/*")
on_context("unknown member", "E-ING-012", lambda c: setattr(find(c, ".//d:explicitMember"), "text", "t:NoSuch"), ".//d:explicitMember",
           lambda c: find(c, ".//d:explicitMember") is not None)
on_context("unknown dimension", "E-ING-010", lambda c: find(c, ".//d:explicitMember").set("dimension", "t:NoSuch"), ".//d:explicitMember",
           lambda c: find(c, ".//d:explicitMember") is not None)


@defect("context: twice")
def _context_twice(doc, n):
    c = pick([c for c in doc.root.iter(XBRLI + "context") if c.get("id")], n)
    if c is None:
        return False
    d = deepcopy(c)
    c.addnext(d)
    return doc.say("E-INI-001", d, c.get("id"))


def on_unit(name, code, change, path="", names=()):
    @defect("unit: " + name)
    def f(doc, n):
        u = pick([u for u in doc.root.iter(XBRLI + "unit") if u.get("id")], n)
        if u is None:
            return False
        doc.facts |= {e.get("id") for e in doc.all("nonFraction") if e.get("unitRef") == u.get("id")}
        change(u)
        return doc.say(code, u.find(path, {"x": xw.XBRLI}) if path else u, *names, *([u.get("id")] if code.startswith("E-INX-00") and not path else []))


def divided(*tags):
    """Replaces the measures of a unit with a division that has these parts."""
    def change(u):
        measure = deepcopy(u.find(XBRLI + "measure"))
        for c in list(u):
            u.remove(c)
        d = etree.SubElement(u, XBRLI + "divide")
        for t in tags:
            etree.SubElement(d, t).append(deepcopy(measure))
    return change


NUM, DEN, ODD = XBRLI + "unitNumerator", XBRLI + "unitDenominator", "{http://nowhere.example.com}part"
on_unit("no id", "E-INI-380", lambda u: u.attrib.pop("id"))
on_unit("empty", "E-INX-001", lambda u: [u.remove(c) for c in list(u)])
on_unit("measure and division", "E-INX-001", lambda u: etree.SubElement(u, XBRLI + "divide"), names=["2"])
on_unit("no denominator", "E-INX-002", divided(NUM), names=["1"])
on_unit("three parts", "E-INX-002", divided(NUM, DEN, DEN), names=["3"])
on_unit("strange part", "E-INX-003", divided(NUM, ODD), names=["part"])
on_unit("two numerators", "E-INX-004", divided(NUM, NUM), names=["unitNumerator"])
on_unit("strange child", "E-INX-005", lambda u: [u.remove(c) for c in list(u)] + [etree.SubElement(u, ODD)], names=["part"])
on_unit("empty measure", "E-INX-006", lambda u: setattr(u.find(XBRLI + "measure"), "text", None), "x:measure")
on_unit("measure of unknown prefix", "E-MSC-000", lambda u: setattr(u.find(XBRLI + "measure"), "text", "nosuch:USD"), "x:measure", ["nosuch"])


def on_roleref(name, code, change, *names):
    @defect("role reference: " + name)
    def f(doc, n):
        e = pick([e for e in doc.root.iter(LINK + "roleRef")] + ([e for e in doc.root.iter(LINK + "arcroleRef")] if "URI" not in name else []), n)
        if e is None:
            return False
        change(e)
        return doc.say(code, e, *names)


on_roleref("bad link type", "E-LNK-100", lambda e: e.set(XLINK + "type", "extended"), "extended")
on_roleref("no href", "E-LNK-101", lambda e: e.attrib.pop(XLINK + "href"))
on_roleref("no role URI", "E-LNK-103", lambda e: e.attrib.pop("roleURI"))
on_roleref("bad role URI", "E-LNK-104", lambda e: e.set("roleURI", "http://[role"), "http://[role")
on_roleref("empty role", "E-LNK-105", lambda e: e.set(XLINK + "role", ""))

WEIGHTED = sorted(KINDS) + 2 * sorted(k for k in KINDS if k.startswith(("date", "chain", "footnote", "relationship", "number: ")))


# ------------------------------------------------------------------ views

def view_of(filing):
    v = {"facts": {}, "edges": {}}
    with under_test("reading the report"):
        for f in obs.facts_view(filing):
            v["facts"].setdefault(f["id"], []).append(f)
        for n in filing.get_all_physical_networks():
            if obs.net_kind(n) != "footnote":
                continue
            for r in n.get_roots():
                for c in r.get_children():
                    x = c.get_resource() if c.points_to() == "resource" else None
                    to = ([x.get_id(), x.get_role(), x.get_content(), x.get_language()] if x else [c.get_fact().get_id()])
                    v["edges"][(n.get_link_role(), tuple(n.get_arc_roles()), r.get_fact().get_id(), to[0])] = [float(c.get_order()), to]
    return v


def damaged(m):
    """The page with its defects; what was done."""
    doc, done = Doc(m), []
    for kind, n in m["defects"]:
        try:
            ok = KINDS[kind](doc, n)
        except (KeyError, AttributeError, IndexError, TypeError, ValueError):
            ok = False  # an earlier defect has already damaged this part
            if not done:
                raise
        if ok:
            done.append(kind)
    return doc, done


def check(m):
    labels = set()
    sound = obs.open_files(Doc(m).files(), "p.xhtml", "opening the sound page")
    before = view_of(sound)
    obs.expect_no_errors(sound, "the sound page")
    ids = [f"f{i}" for i in range(len(m["facts"]))] + [f"f{i}n" for i, f in enumerate(m["facts"]) if f["kind"] == "nest"]
    expect_eq(sorted(before["facts"]), sorted(ids), "the facts of the sound page")
    doc, done = damaged(m)
    if not done:
        return labels
    labels.update(done)
    filing = obs.open_files(doc.files(), "p.xhtml", f"opening the page with the defects {done}")
    after = view_of(filing)
    errors = obs.errors_of(filing)
    expect(len(errors) > 0, lambda: f"the defects {done} were not reported")
    for e in errors:
        expect(str(e) and not re.search(r"\{[a-z_]+\}", e.get_message()), lambda: f"the message of an error is incomplete: {e}")
    keep = set(before["facts"]) - doc.facts
    expect_eq({i: after["facts"].get(i) for i in sorted(keep)}, {i: before["facts"][i] for i in sorted(keep)},
              f"facts that the defects {done} do not touch")
    extra = set(after["facts"]) - set(before["facts"]) - doc.facts
    expect(not extra, f"the defects {done} added the facts {extra}")

    def sound_edges(v):
        return {k: x for k, x in v["edges"].items() if not ({k[2], k[3]} & (doc.facts | doc.feet)) and (k[2], k[3]) not in doc.rels}

    expect_eq(sorted(sound_edges(after).items(), key=str), sorted(sound_edges(before).items(), key=str),
              f"footnotes of facts that the defects {done} do not touch")
    if len(done) > 1:
        labels.add("several defects")
    if keep:
        labels.add("sound facts")
    if sound_edges(before):
        labels.add("sound footnotes")
    return labels


def nontrivial(m, labels):
    return "sound facts" in labels


MUST_HIT = sorted(KINDS) + ["several defects", "sound footnotes"]
