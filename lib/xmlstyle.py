"""The same XML document, written otherwise: prefixes, declarations, quotes, comments, white space, encodings, order of independent parts."""
import random

from lxml import etree

from lib import xw

XS, LINK, XLINK, XBRLI, XBRLDI = xw.XS, xw.LINK, xw.XLINK, xw.XBRLI, xw.XBRLDI
XHTML = "http://www.w3.org/1999/xhtml"
IX = ("http://www.xbrl.org/2008/inlineXBRL", "http://www.xbrl.org/2013/inlineXBRL")
XML = "http://www.w3.org/XML/1998/namespace"
OPTIONS = ["comments", "instructions", "white space", "prefixes", "default namespace", "own default", "local declarations", "attribute order", "quotes", "character references",
           "CDATA", "empty elements", "order", "line ends", "doctype", "padding", "entities"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii", "windows-1252", "undeclared"]
QNAME_TEXT = {"{%s}measure" % XBRLI, "{%s}explicitMember" % XBRLDI, "{%s}usedOn" % LINK}
QNAME_ATTR = {XS: {"type", "substitutionGroup", "base", "ref"}, XBRLDI: {"dimension"}, **{u: {"name", "format"} for u in IX}}

COLLAPSED_TEXT = {"{%s}%s" % (XBRLI, n) for n in ("identifier", "startDate", "endDate", "instant", "measure")} | {"{%s}explicitMember" % XBRLDI, "{%s}usedOn" % LINK}


def split(tag):
    q = etree.QName(tag)
    return q.namespace or "", q.localname


class Writer:
    def __init__(self, options, encoding, seed):
        self.o, self.rnd, self.encoding = set(options), random.Random(seed), encoding
        self.entities = {}
        self.codec = {"utf-8-sig": "utf-8", "undeclared": "utf-8"}.get(encoding, encoding)

    def chance(self, option, p=0.5):
        return option in self.o and self.rnd.random() < p

    # -------------------------------------------------------------- text

    def fits(self, c):
        try:
            c.encode(self.codec)
            return True
        except UnicodeEncodeError:
            return False

    def escape(self, text, also=""):
        res = []
        for c in text:
            if c in "&<>" or c in also or c == "\r":
                res.append({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}.get(c) or f"&#{ord(c)};")
            elif self.chance("entities", 0.1) and not c.isspace():
                res.append(f"&{self.entities.setdefault(c, f'e{ord(c):x}')};")
            elif not self.fits(c) or self.chance("character references", 0.15) and not c.isspace():
                res.append(self.rnd.choice([f"&#{ord(c)};", f"&#x{ord(c):x};", f"&#x{ord(c):X};"]))
            else:
                res.append(c)
        return "".join(res)

    def noise(self, p=0.3):
        if self.chance("comments", p):
            return self.rnd.choice(["<!-- note -->", "<!---->", "<!-- <a b='c'>&amp; -->", "<!-- 1 -->"])
        if self.chance("instructions", p):
            return self.rnd.choice(["<?pi?>", "<?page break='1'?>", "<?xml-stylesheet href='a.css'?>"])
        return ""

    def text(self, t):
        if not t:
            return ""
        parts = [t]
        if ("comments" in self.o or "instructions" in self.o) and self.rnd.random() < 0.3:
            k = self.rnd.randint(0, len(t))
            parts = [t[:k], t[k:]]
        res = []
        for p in parts:
            if p and self.chance("CDATA", 0.4) and "]]>" not in p and "\r" not in p and all(map(self.fits, p)):
                res.append(f"<![CDATA[{p}]]>")
            else:
                res.append(self.escape(p))
        return (self.noise(1) if len(parts) > 1 else "").join(res)

    def gap(self):
        if "white space" not in self.o:
            return "\n"
        g = self.rnd.choice(["", "", " ", "\n", "\n\n    ", "\t"])
        return g.replace("\n", "\r\n") if self.chance("line ends") else g

    # -------------------------------------------------------------- names

    def qnames(self, e):
        """The QNames in the content and attributes of e: {None or attribute: clark}."""
        res = {}
        ns, _ = split(e.tag)

        def clark(q):
            p, _, l = q.strip().rpartition(":")
            return (e.nsmap.get(p or None, ""), l)
        if e.tag in QNAME_TEXT and e.text and e.text.strip():
            res[None] = clark(e.text)
        for a in QNAME_ATTR.get(ns, ()):
            if e.get(a):
                res[a] = clark(e.get(a))
        return res

    def choose(self, root):
        """uri -> prefix for the whole document."""
        uris = {}
        for e in root.iter(etree.Element):
            for p, u in e.nsmap.items():
                uris.setdefault(u, p or "")
        for e in root.iter(etree.Element):
            uris.setdefault(split(e.tag)[0], "")
            for a in e.attrib:
                if split(a)[0] not in ("", XML):
                    uris.setdefault(split(a)[0], "")
            for u, _ in self.qnames(e).values():
                uris.setdefault(u, "")
        # every namespace gets a prefix; one may be the default
        res, used = {}, set()
        attr_uris = {split(a)[0] for e in root.iter(etree.Element) for a in e.attrib}
        default = None
        free = [u for u in uris if u and u not in attr_uris and u != XML]
        if "" not in uris and self.chance("default namespace", 1) and free and split(root.tag)[0] != XHTML:
            default = self.rnd.choice(free)
        for u, p in uris.items():
            if u == XML or u == "":
                continue
            if split(root.tag)[0] == XHTML and u == XHTML or u == default:
                res[u] = ""
                continue
            if p == "" and "default namespace" not in self.o and u not in attr_uris and "" not in res.values():
                res[u] = ""
                continue
            if "prefixes" in self.o or not p or p in used:
                p = self.rnd.choice(["p", "ns", "x", "a", "b", "L", "n-1", "_"])
                while p in used:
                    p += str(self.rnd.randint(0, 9))
            used.add(p)
            res[u] = p
        return res

    # -------------------------------------------------------------- elements

    def document(self, root):
        self.prefix = self.choose(root)
        self.attr_uris = {split(a)[0] for e in root.iter(etree.Element) for a in e.attrib} | {XHTML, XML, ""}
        self.unnamed = any(not u for e in root.iter(etree.Element) for u in [split(e.tag)[0]] + [u for u, _ in self.qnames(e).values()])
        self.page = split(root.tag)[0] == XHTML
        declared = {u: p for u, p in self.prefix.items()} if "local declarations" not in self.o else \
            {u: p for u, p in self.prefix.items() if p == ""}
        body = self.element(root, declared, {}, self.page)
        head = "" if self.encoding == "undeclared" else f'<?xml version="1.0" encoding="{self.codec}"?>\n'
        subset = "".join(f'<!ENTITY {n} "&#{ord(c)};">' for c, n in self.entities.items())
        if self.entities or self.chance("doctype", 1):
            head += f"<!DOCTYPE {'html' if self.page else self.name(root.tag, self.prefix)}{f' [{subset}]' if subset else ''}>\n"
        res = head + self.noise(0.5) + "\n" + body + "\n" + self.noise(0.5)
        return (b"\xef\xbb\xbf" if self.encoding == "utf-8-sig" else b"") + res.encode(self.codec)

    def name(self, tag, scope):
        u, l = split(tag)
        p = scope.get(u, "") if u else ""
        return f"{p}:{l}" if p else l

    def element(self, e, declare, scope, mixed):
        declare = dict(declare)
        scope = {**scope, **declare}
        qn = self.qnames(e)
        uris = [split(e.tag)[0]] + [split(a)[0] for a in e.attrib] + [u for u, _ in qn.values()]
        own = sorted({split(e.tag)[0]} | {u for u, _ in qn.values()} - self.attr_uris)
        if not self.unnamed and own and own[-1] and self.chance("own default", 0.25):
            u = self.rnd.choice([u for u in own if u not in self.attr_uris] or [None])
            if u:  # from here on, names without a prefix are in this namespace
                scope = {v: p for v, p in scope.items() if p}
                declare = {v: p for v, p in declare.items() if p}
                declare[u] = scope[u] = ""
        for u in uris:
            if u and u != XML and u not in scope:
                p = self.prefix[u]
                if p == "" and "" in scope.values() or p in scope.values():
                    p = next(x for i in range(99) if (x := f"u{i}") not in scope.values() and x not in self.prefix.values())
                declare[u] = scope[u] = p
        attrs = [("xmlns:" + p if p else "xmlns", u) for u, p in declare.items()]
        for a, v in e.attrib.items():
            u, l = split(a)
            n = f"xml:{l}" if u == XML else self.name(a, scope) if u else l
            if a in qn:
                v = self.qname(qn[a], scope)
            attrs.append((n, self.padded(v) if self.collapses(e, a) else v))
        if "attribute order" in self.o:
            self.rnd.shuffle(attrs)
        name = self.name(e.tag, scope)
        out = [f"<{name}"]
        for n, v in attrs:
            q = "'" if self.chance("quotes") else '"'
            sep = self.rnd.choice([" ", "  ", "\n  "]) if "white space" in self.o else " "
            eq = self.rnd.choice(["=", " = "]) if self.chance("white space", 0.2) else "="
            out.append(f"{sep}{n}{eq}{q}{self.escape(v, q + chr(10) + chr(9))}{q}")
        kids = [c for c in e]
        text = self.qname(qn[None], scope) if None in qn else e.text
        if not kids and text and e.tag in COLLAPSED_TEXT:
            text = self.padded(text)
        if not kids and not text:
            out.append(self.rnd.choice(["/>", " />", f"></{name}>"]) if "empty elements" in self.o else "/>")
            return "".join(out)
        out.append(">")
        tag = split(e.tag)
        mixed = self.is_mixed(tag, mixed)
        blank = kids and not mixed and not any((t or "").strip() for t in [text] + [c.tail for c in kids])
        if blank:
            out.append(self.gap() + self.noise())
            for c in self.arranged(e, kids):
                out.append(self.element(c, {}, scope, mixed) + self.gap() + self.noise(0.2))
        else:
            out.append(self.text(text))
            for c in kids:
                out.append(self.element(c, {}, scope, mixed) + self.text(c.tail))
        out.append(f"</{name}>")
        return "".join(out)

    def padded(self, text):
        """White space around it, which XML Schema says is no part of the value."""
        return self.rnd.choice([" ", "\n", ""]) + text + self.rnd.choice([" ", "\n  ", "  "]) if self.chance("padding", 0.2) else text

    @staticmethod
    def collapses(e, attribute):
        """Whether the attribute has a type whose white space is collapsed: ids, references, names, numbers, URIs."""
        u, l = split(attribute)
        ns = split(e.tag)[0]
        return ns != XHTML and u != XML and (u, l) != (XLINK, "title") and not (ns in IX and l == "sign")

    def qname(self, q, scope):
        p = scope.get(q[0], "")
        return f"{p}:{q[1]}" if p else q[1]

    @staticmethod
    def is_mixed(tag, mixed):
        """Whether white space counts in the element: it does in pages, and in values, labels and footnotes."""
        u, l = tag
        if u == XHTML:
            return l not in ("html", "head")
        if u in IX:
            return l not in ("header", "resources", "references", "hidden")
        if u in (XBRLI, XS):
            return False
        if u == LINK:
            return l in ("label", "footnote") or mixed
        if u == XBRLDI:
            return l == "typedMember"
        return mixed

    def arranged(self, e, kids):
        """The children in another order, if that changes nothing: what belongs together keeps its order."""
        u, l = split(e.tag)
        if "order" not in self.o:
            return kids
        if (u, l) in ((XBRLI, "xbrl"), (XS, "schema")) or u in IX and l == "resources":
            first = [c for c in kids if split(c.tag)[1] in ("schemaRef", "linkbaseRef", "roleRef", "arcroleRef", "import", "include", "annotation")]
            groups = {}
            for c in kids:
                if c in first:
                    continue
                free = split(c.tag) in ((XBRLI, "context"), (XBRLI, "unit"), (XS, "element"))
                groups.setdefault("free" if free else split(c.tag)[1] if split(c.tag)[0] == LINK or split(c.tag)[0] in IX else "facts", []).append(c)
            self.rnd.shuffle(groups.get("free", []))
            return first + self.interleave(list(groups.values()))
        if e.get("{%s}type" % XLINK) == "extended":
            groups = {}
            for c in kids:
                groups.setdefault(c.get("{%s}type" % XLINK), []).append(c)
            return self.interleave(list(groups.values()))
        return kids

    def interleave(self, lists):
        lists, res = [list(x) for x in lists if x], []
        while lists:
            x = self.rnd.choice(lists)
            res.append(x.pop(0))
            if not x:
                lists.remove(x)
        return res


def restyle(text, options, encoding, seed):
    root = etree.fromstring(text if isinstance(text, bytes) else text.encode(),
                            etree.XMLParser(remove_comments=True, remove_pis=True))
    try:
        return Writer(options, encoding, seed).document(root)
    except UnicodeEncodeError:  # a name that the encoding cannot write
        return Writer(options, "utf-8", seed).document(root)
