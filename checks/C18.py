"""C18  Inline text facts are the marked-up text, continuations in, exclusions out."""
from hypothesis import strategies as st
from lxml import etree

from lib import gen, ix, obs, xw
from lib.harness import Violation, expect_eq, under_test

ID = "C18"
QUICK = 4500
THOROUGH = 60000
RULE = ("inline pages with 1-4 ix:nonNumeric facts over random XHTML trees (depth up to 4) with ix:exclude, nested facts, comments, "
        "processing instructions, CDATA-like characters, and continuation chains of up to 3 pieces anywhere in the page, also "
        "inside another fact; escape true, false or absent; non-trivial = some fact has a continuation, an exclusion, a nested "
        "fact or escaped markup")
MUST_HIT = ["continuation", "escape=0", "escape=1", "two continuations", "exclude", "nested fact", "escaped markup", "continuation before its fact",
            "continuation inside another fact", "comment", "empty", "special characters", "markup in exclude", "hidden", "nil",
            "nested number"]
TAGS = ["b", "i", "p", "span", "div", "br", "sub", "em"]
text = st.one_of(gen.xml_text1, st.sampled_from(["a", " b ", "x &amp; y", "<i>", "]]>", "\n", "1 < 2 > 0 & \"q\" 'p'"]))


def nodes(depth):
    opts = [text, text]
    if depth > 0:
        kids = st.lists(st.deferred(lambda: nodes(depth - 1)), max_size=3)
        opts += [st.builds(lambda t, a, c: {"el": t, "a": a, "c": [] if t == "br" else c}, st.sampled_from(TAGS),
                           st.dictionaries(st.sampled_from(["class", "title", "style"]), gen.plain_text1, max_size=2), kids),
                 st.builds(lambda c: {"ix": "exclude", "c": c}, kids),
                 st.builds(lambda c, e: {"nest": True, "escape": e, "c": c}, kids, st.sampled_from([None, None, None, "true", "false", "true", "false", "1", "0"])),
                 st.just({"comment": " c <b> "}), st.just({"pi": "target data"}),
                 st.builds(lambda n: {"num": str(n)}, st.integers(0, 99999))]
    return st.one_of(opts)


@st.composite
def strategy_(draw, tier):
    facts = []
    for i in range(draw(st.integers(1, 4))):
        nparts = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
        facts.append({"parts": [draw(st.lists(nodes(draw(st.integers(0, 3))), max_size=5)) for _ in range(nparts)],
                      "escape": draw(st.sampled_from([None, None, None, "false", "true", "true", "true", "1", "0", "0"])),
                      "lay": draw(ix.layout_of_fact)[0],
                      "nil": nparts == 1 and draw(st.integers(0, 15)) == 0})
    pieces = [[i, k] for i, f in enumerate(facts) for k in range(len(f["parts"]))]
    order = draw(st.permutations(pieces))
    inside = []  # continuation [i, k] stands inside the first piece of an earlier fact
    for i, k in pieces:
        if k > 0 and i > 0 and draw(st.integers(0, 5)) == 0:
            b = draw(st.integers(0, i - 1))
            if not facts[b]["nil"]:
                inside.append([i, k, b])
    return {"facts": facts, "order": order, "inside": inside, "ixp": draw(st.sampled_from(["ix", "ix", "y"]))}


def strategy(tier):
    return strategy_(tier)


class Page:
    """Serialises the model and collects what each fact's content is."""

    def __init__(self, m):
        self.m = m
        self.inside = {(i, k): b for i, k, b in m["inside"]}
        self.nested = []  # (id, escape, nodes) of nested facts
        self.labels = set()

    def piece(self, i, k):
        """Nodes of one piece, with the continuations of others that stand in it."""
        ns = [self.real(n) for n in self.m["facts"][i]["parts"][k]]
        if k == 0:
            for (i2, k2), b in self.inside.items():
                if b == i:
                    ns = ns + [self.block(i2, k2)]
                    self.labels.add("continuation inside another fact")
        return ns

    def real(self, n):
        if isinstance(n, str):
            return n
        if "nest" in n:
            c = [self.real(x) for x in n["c"]]
            nid = f"n{len(self.nested)}"
            a = {"name": "t:C1", "contextRef": "c0", "id": nid}
            if n["escape"]:
                a["escape"] = n["escape"]
            self.nested.append((nid, n["escape"], c))
            self.labels.add("nested fact")
            return {"ix": "nonNumeric", "a": a, "c": c}
        if "num" in n:
            nid = f"n{len(self.nested)}"
            self.nested.append((nid, None, [n["num"]]))
            self.labels.add("nested number")
            return {"ix": "nonFraction", "a": {"name": "t:C2", "contextRef": "c0", "unitRef": "usd", "id": nid}, "c": [n["num"]]}
        if "comment" in n or "pi" in n:
            self.labels.add("comment")
            return n
        if n.get("ix") == "exclude":
            self.labels.add("exclude")
            if any(not isinstance(x, str) for x in n["c"]):
                self.labels.add("markup in exclude")
        return {**n, "c": [self.real(x) for x in n["c"]]}

    def block(self, i, k):
        f = self.m["facts"][i]
        a = {}
        if k == 0:
            a = {"name": "t:C0", "contextRef": "c0", "id": f"f{i}"}
            if f["escape"]:
                a["escape"] = f["escape"]
        else:
            a = {"id": f"x{i}_{k}"}
        if k + 1 < len(f["parts"]):
            a["continuedAt"] = f"x{i}_{k + 1}"
        if f["nil"]:
            return {"ix": "nonNumeric", "a": {**a, "xsi:nil": "true"}, "c": []}
        c = self.content.setdefault((i, k), self.piece(i, k)) if (i, k) not in self.content else self.content[i, k]
        return {"ix": "nonNumeric" if k == 0 else "continuation", "a": a, "c": c}

    def build(self):
        self.content = {}
        top = []
        hidden = []
        for i, k in self.m["order"]:
            if (i, k) in self.inside:
                continue
            b = self.block(i, k)
            if k == 0 and self.m["facts"][i]["lay"] == len(ix.WRAPPERS):
                hidden.append(b)
            else:
                top.append(ix.wrap(b, self.m["facts"][i]["lay"]))
        return top, hidden


def flat(ns):
    out = []
    for n in ns:
        if isinstance(n, str):
            out.append(n)
        elif "comment" in n or "pi" in n or n.get("ix") == "exclude":
            continue
        else:
            out.append(flat(n["c"]))
    return "".join(out)


def tree(ns):
    """Normal form of markup: [text, [tag, attrs, content], text, ..]"""
    out = [""]

    def walk(ns):
        for n in ns:
            if isinstance(n, str):
                out[-1] += n
            elif "comment" in n or "pi" in n or n.get("ix") == "exclude":
                continue
            elif "ix" in n:
                walk(n["c"])
            else:
                out.append([n["el"], sorted(n.get("a", {}).items()), tree(n["c"])])
                out.append("")
    walk(ns)
    return out


def parsed(e):
    out = [e.text or ""]
    for c in e:
        if isinstance(c.tag, str):
            q = etree.QName(c)
            if q.namespace != ix.XHTML:
                raise Violation(f"the escaped value contains an element {c.tag} that is not XHTML")
            out.append([q.localname, sorted((k, v) for k, v in c.attrib.items()), parsed(c)])
            out.append(c.tail or "")
        else:
            out[-1] += c.tail or ""
    return out


def expect_content(got, escape, ns, what):
    if escape not in ("true", "1"):
        expect_eq(got, flat(ns), f"the text of {what}")
        return
    try:
        e = etree.fromstring(f'<r xmlns="{ix.XHTML}">{got}</r>')
    except etree.XMLSyntaxError as ex:
        raise Violation(f"the escaped value of {what} is not well-formed markup ({ex}): {got!r}")
    expect_eq(parsed(e), tree(ns), f"the escaped markup of {what} (value {got!r})")


def check(m):
    tax = ix.simple_taxonomy(["xbrli:stringItemType", "xbrli:stringItemType", "xbrli:decimalItemType"])
    p = Page(m)
    body, hidden = p.build()
    page = {"ns": {"t": tax["ns"]}, "refs": [["schema", "t.xsd"]], "contexts": ix.CTX, "units": ix.UNIT, "ixp": m["ixp"],
            "hidden": hidden, "body": body}
    filing = obs.open_files({"t.xsd": xw.schema_xml(tax), "p.xhtml": ix.page_xml(page)}, "p.xhtml", "opening a well-formed inline filing")
    with under_test("reading the facts"):
        facts = filing.get_all_facts()
        got = {x.get_id(): str(x) for x in facts}
    ids = [f"f{i}" for i in range(len(m["facts"]))] + [n[0] for n in p.nested]
    expect_eq(sorted(x.get_id() for x in facts), sorted(ids), "the ids of the facts")
    obs.expect_no_errors(filing, "a well-formed inline filing")
    labels = p.labels
    for i, f in enumerate(m["facts"]):
        if f["nil"]:
            expect_eq(got[f"f{i}"], "", f"the value of nil fact f{i}")
            labels.add("nil")
            continue
        ns = [n for k in range(len(f["parts"])) for n in p.content[i, k]]
        expect_content(got[f"f{i}"], f["escape"], ns, f"fact f{i}")
        if len(f["parts"]) > 1:
            labels.add("continuation")
            if len(f["parts"]) > 2:
                labels.add("two continuations")
            if m["order"].index([i, 1]) < m["order"].index([i, 0]):
                labels.add("continuation before its fact")
        if f["escape"] in ("true", "1") and any(not isinstance(x, str) for x in tree(ns)):
            labels.add("escaped markup")
        if f["escape"] in ("0", "1"):
            labels.add("escape=" + f["escape"])
        if flat(ns) == "":
            labels.add("empty")
        if set(flat(ns)) & set("<>&\"'"):
            labels.add("special characters")
        if f["lay"] == len(ix.WRAPPERS):
            labels.add("hidden")
    for nid, escape, ns in p.nested:
        expect_content(got[nid], escape, ns, f"nested fact {nid}")
    return labels


def nontrivial(m, labels):
    return bool(labels & {"continuation", "exclude", "nested fact", "escaped markup"})
