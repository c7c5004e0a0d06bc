"""C34  No content of a well-formed document makes the opening fail."""
import contextlib
import io
import os
from copy import deepcopy

from hypothesis import strategies as st
from lxml import etree

from brel import Filing
from brel.utils import pprint
from lib import anyfiling, obs, web
from lib.harness import expect, expect_eq, under_test

ID = "C34"
QUICK = 4800
THOROUGH = 60000
RULE = ("filings of every sort with 1-4 random damages to their documents: attributes and texts dropped or replaced by text of another kind, elements removed, doubled, "
        "renamed, moved or nested, bytes replaced; non-trivial = a damage that changes what is read or is reported, in a filing with a fact or a network")
HOWS = ["attribute", "attribute", "attribute", "new attribute", "drop", "text", "remove", "double", "rename", "move", "nest", "swap", "bytes"]
MUST_HIT = sorted(set(HOWS)) + ["reported", "not reported", "malformed entry", "malformed other", "report", "inline", "pages", "defective", "presentation", "calculation",
                                "definition", "several damages", "instance", "schema", "linkbase", "page", "a fact less", "an inline fact less", "a fact as before"]
ODD = ["", " ", "x", "it's", "-1", "99999999999999999999", "a:b:c", ":", "nosuch:x", "#", "#x", "é", "{a}b", "}", "true", "0", "1e999", "NaN", "INF", "xbrli:item", "//", "..",
       "x.xml#y", "2024-13-45", "2024-01-01T24:00:00", "--", "P1Y", "a b", "*", "%", "%zz.xsd#a", "http://", "http://[x", "file:///x", "xbrli:stringItemType", "\t", "<", "]]>", "0x1"]
CHANGES = ["+", "twice", "shorter", "upper", "swap", "space"]
ATTRIBUTES = ["contextRef", "unitRef", "id", "decimals", "precision", "name", "type", "substitutionGroup", "abstract", "nillable", "order", "weight", "format", "scale", "sign", "target",
              "continuedAt", "escape", "fromRefs", "toRefs", "targetNamespace", "schemaLocation", "{http://www.w3.org/1999/xlink}type", "{http://www.w3.org/1999/xlink}href",
              "{http://www.w3.org/1999/xlink}label", "{http://www.w3.org/1999/xlink}role", "{http://www.w3.org/1999/xlink}arcrole", "{http://www.w3.org/1999/xlink}from",
              "{http://www.w3.org/1999/xlink}to", "{http://www.w3.org/XML/1998/namespace}lang", "{http://www.w3.org/2001/XMLSchema-instance}nil",
              "{http://www.xbrl.org/2003/instance}balance", "{http://www.xbrl.org/2003/instance}periodType", "{http://xbrl.org/2005/xbrldt}typedDomainRef"]
I, L, S, X, D = ("{%s}" % u for u in ("http://www.xbrl.org/2003/instance", "http://www.xbrl.org/2003/linkbase", "http://www.w3.org/2001/XMLSchema",
                                      "http://www.xbrl.org/2013/inlineXBRL", "http://xbrl.org/2006/xbrldi"))
TAGS = [I + "context", I + "unit", I + "xbrl", I + "segment", I + "measure", I + "divide", L + "loc", L + "label", L + "presentationLink", L + "roleType", L + "schemaRef", L + "usedOn",
        L + "footnoteLink", L + "reference", S + "element", S + "schema", S + "import", S + "complexType", X + "nonFraction", X + "nonNumeric", X + "continuation", X + "exclude",
        X + "header", X + "footnote", X + "relationship", X + "resources", X + "hidden", X + "fraction", X + "tuple", D + "explicitMember", D + "typedMember", "x", "{http://nosuch}y"]
IX = ("http://www.xbrl.org/2013/inlineXBRL",)
SORTS = ("report", "report", "calculation", "presentation", "definition", "inline", "pages", "pages", "defective")


@st.composite
def _case(draw, tier):
    n = st.integers(0, 10**4)
    return {"filing": draw(anyfiling.strategy("quick", SORTS)),
            "damages": [{"how": draw(st.sampled_from(HOWS)), "doc": draw(n), "element": draw(n), "other": draw(n),
                         "value": draw(st.one_of(st.sampled_from(ODD), st.sampled_from(ODD), st.sampled_from(["=" + c for c in CHANGES])))}
                        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4])))]}


def strategy(tier):
    return _case(tier)


def other_text(old, value, root, n):
    """The text instead of the old one."""
    if not value.startswith("="):
        return value
    c = value[1:]
    if c == "swap":
        some = [v for e in root.iter(etree.Element) for v in e.attrib.values()]
        return some[n % len(some)] if some else old
    return {"+": old + "x", "twice": old + " " + old, "shorter": old[:-1], "upper": old.swapcase(), "space": " " + old + "\n"}[c]


def damage(b, d):
    """The document with the damage, None if there is nothing of the sort to damage."""
    if d["how"] == "bytes":
        k = d["element"] * 37 % max(len(b), 1)
        return b[:k] + (other_text(b[k:k + 4].decode("utf-8", "replace"), d["value"], etree.Element("x"), 0)).encode() + b[k + d["other"] % 9:]
    try:
        root = etree.fromstring(b)
    except etree.XMLSyntaxError:
        return None
    elements = list(root.iter(etree.Element))
    how, n = d["how"], d["other"]
    if how in ("remove", "double", "move", "nest", "swap"):
        elements = elements[1:]
    if how in ("attribute", "drop"):
        elements = [e for e in elements if e.attrib]
    if not elements:
        return None
    e = elements[d["element"] % len(elements)]
    other = elements[n % len(elements)]
    try:
        if how == "attribute":
            a = list(e.attrib)[n % len(e.attrib)]
            e.set(a, other_text(e.get(a), d["value"], root, d["element"]))
        elif how == "new attribute":
            a = ATTRIBUTES[n % len(ATTRIBUTES)]
            e.set(a, other_text(e.get(a, ""), d["value"], root, d["element"]))
        elif how == "drop":
            del e.attrib[list(e.attrib)[n % len(e.attrib)]]
        elif how == "text":
            e.text = other_text(e.text or "", d["value"], root, n)
        elif how == "remove":
            e.getparent().remove(e)
        elif how == "double":
            e.addnext(deepcopy(e))
        elif how == "rename":
            e.tag = TAGS[n % len(TAGS)]
        elif how == "move":
            if e in list(other.iterancestors()) or e is other:
                return None
            other.append(e)
        elif how == "nest":
            e.append(deepcopy(e))
        elif how == "swap":
            e.text, other.text = other.text, e.text
            a, b = dict(e.attrib), dict(other.attrib)
            for x, attrs in ((e, b), (other, a)):
                x.attrib.clear()
                x.attrib.update(attrs)
    except ValueError:  # no text of an XML document
        return None
    return etree.tostring(root)


def well_formed(b):
    try:
        return etree.fromstring(b)
    except etree.XMLSyntaxError:
        return None


def nodes_of(network):
    work = list(network.get_roots())
    while work:
        node = work.pop()
        yield node
        work.extend(node.get_children())


def canonical(e):
    """An element with the namespaces its names are in, whatever prefixes they have."""
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, e.tail and e.tail.strip(), tuple(sorted(map(str, e.nsmap.items()))), tuple(map(canonical, e)))


def facts_of(root):
    """What each fact element of an instance depends on in it: its own name, attributes and text, its context and its unit."""
    def first(kind, i):
        found = [e for e in root if isinstance(e.tag, str) and etree.QName(e).localname == kind and e.get("id") == i]
        return canonical(found[0]) if found else None
    about = sorted(str(canonical(e)) for e in root if etree.QName(e).localname in ("schemaRef", "linkbaseRef", "roleRef"))
    return [(e.tag, sorted(e.attrib.items()), e.text, first("context", e.get("contextRef")), e.get("unitRef") and first("unit", e.get("unitRef")),
             sorted(map(str, e.nsmap.items())), about) for e in root.findall(".//*[@contextRef]")]


def check(c):
    files, entry = anyfiling.files_of(c["filing"])
    files = {n: t if isinstance(t, bytes) else t.encode() for n, t in files.items()}
    original = dict(files)
    labels = {c["filing"]["sort"]}
    names = sorted(n for n in files if n.endswith((".xml", ".xsd", ".xhtml", ".htm", ".html")))
    count = 0
    for d in c["damages"]:
        name = names[d["doc"] % len(names)]
        b = damage(files[name], d)
        if b is None or b == files[name]:
            continue
        count += 1
        labels.add(d["how"])
        root = well_formed(files[name])
        if root is not None:
            tag = etree.QName(root.tag).localname
            labels.add({"xbrl": "instance", "schema": "schema", "linkbase": "linkbase", "html": "page"}.get(tag, "other root"))
        files[name] = b
    if count > 1:
        labels.add("several damages")
    broken = [n for n in names if well_formed(files[n]) is None]
    with web.serving(web.Web()):
        d = obs.case_dir()
        obs.write_files(d, files)
        path = os.path.join(d, entry) if entry else d
        try:
            filing = Filing.open(path)
        except etree.XMLSyntaxError:
            expect(entry in broken, lambda: f"opening raised XMLSyntaxError, but {entry} is well-formed")
            labels.add("malformed entry")
            return labels
        except Exception:
            with under_test("opening a filing of well-formed documents" if not broken else f"opening a filing in which {broken} is malformed"):
                raise
        expect(entry not in broken or not entry, lambda: f"{entry} is malformed, but was opened")
        if broken:
            labels.add("malformed other")
        with under_test("reading what is left of a filing"):
            anyfiling.view(filing)
            facts, elements, errors = filing.get_all_facts(), filing.get_all_report_elements(), filing.get_all_errors()
            networks = filing.get_all_physical_networks() + [n for x in filing.get_all_components() for n in x.get_networks()]
            with contextlib.redirect_stdout(io.StringIO()):
                for x in [*filing.get_all_components(), *filing.get_all_physical_networks(), facts]:
                    pprint(x)
    labels.add("reported" if errors else "not reported")
    if facts or networks:
        labels.add("something")
    # what is left belongs together
    known = {id(e) for e in elements}
    with under_test("reading what is left of a filing"):
        for f in facts:
            expect(id(f.get_concept()) in known, lambda: f"the concept of {f} is no element of the filing")
            for a in f.get_aspects():
                v = f.get_characteristic(a)
                expect(v is not None, lambda: f"{f} has the aspect {a}, but not its value")
        for n in networks:
            for node in nodes_of(n):
                if node.points_to() == "report element":
                    expect(id(node.get_report_element()) in known, lambda: f"{node} of {n} is no element of the filing")
        for x in filing.get_all_components():
            for n in x.get_networks():
                expect(n.get_link_role() == x.get_URI(), lambda: f"a network of {n.get_link_role()} in {x}")
    # no fact is left out without a word
    pages = [n for n in names if n.endswith(("htm", "html")) and n not in broken and (n == entry or not entry)]
    wanted = sum(len(list(etree.fromstring(files[n]).iter(*[f"{{{u}}}{l}" for u in IX for l in ("nonFraction", "nonNumeric")]))) for n in pages)
    expect(len(facts) + len(errors) >= wanted, lambda: f"{wanted} inline fact elements gave {len(facts)} facts and {len(errors)} errors: {[str(e) for e in errors][:5]}")
    if len(facts) < wanted:
        labels.add("an inline fact less")
    if entry.endswith(".xml"):
        wanted = len(etree.fromstring(files[entry]).findall(".//*[@contextRef]"))
        expect(len(facts) + len(errors) >= wanted, lambda: f"{wanted} fact elements gave {len(facts)} facts and {len(errors)} errors: {[str(e) for e in errors][:5]}")
        if len(facts) < wanted:
            labels.add("a fact less")
        # what only other facts depend on costs a fact nothing
        if c["filing"]["sort"] != "defective" and [n for n in files if files[n] != original[n]] == [entry]:
            before = facts_of(etree.fromstring(original[entry]))
            after = facts_of(etree.fromstring(files[entry]))
            obs.clear_cache()
            obs.write_files(d, original)
            with under_test("opening the filing without the damage"):
                views = obs.facts_view(Filing.open(path))
            expect_eq(len(views), len(before), "number of facts without the damage")
            got = obs.facts_view(filing)
            for key, view in zip(before, views):
                if key in after:
                    after.remove(key)
                    expect(view in got, lambda: f"the damage does not concern {view}, but it is not read with it: {got}")
                    got.remove(view)
                    labels.add("a fact as before")
    return labels


def nontrivial(c, labels):
    return "something" in labels and ("reported" in labels or "several damages" in labels)
