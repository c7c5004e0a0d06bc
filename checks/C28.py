"""C28  Printing shows every node and every fact."""
import contextlib
import io
import re

from hypothesis import strategies as st

from brel.utils import pprint
from lib import gen, nets, obs, tables, xw
from lib.harness import expect, expect_eq, under_test

ID = "C28"
QUICK = 1800
THOROUGH = 30000
RULE = ("reports with facts, labels, references, footnotes (to facts and resources) and networks for up to 3 roles; every network, node, "
        "component and fact and lists of them are printed and the text is parsed back; non-trivial = a network of three levels or a fact table of two rows")
MUST_HIT = ["presentation", "calculation", "definition", "label", "reference", "footnote", "fact node", "three levels", "several roots", "weight",
            "dimension column", "several lines", "no facts", "component without network", "component with networks", "markup in info", "long info",
            "unit", "no id", "wide characters"]
MARKUP = ["[bold]x[/bold]", "[/x] income", "a [red] b", "Statement [Abstract]", ":smile: [", "x]", "\\[a]", "[link=http://e.com]x[/link]", "[@click=a]b",
          "0001 - Disclosure - " + "A very long title of a chapter " * 5, "www" * 60]


@st.composite
def _case(draw, tier):
    m = draw(tables.report(tier))
    m["infos"] = [draw(st.sampled_from(MARKUP)) if draw(st.integers(0, 1)) else i for i in m["infos"]]
    m["raw"] = draw(st.integers(0, 3)) == 0
    if not m["raw"]:
        for f in m["facts"]:
            f["value"] = re.sub(r"[|\s]", "_", f["value"])
    pool = [[k, i] for k, s in enumerate(m["schemas"]) for i, e in enumerate(s["elements"]) if e.get("sg")]
    m["refs"] = [[x, draw(st.lists(gen.plain_text1, min_size=1, max_size=2))] for x in draw(st.lists(st.sampled_from(pool), max_size=3))]
    for j, f in enumerate(m["facts"]):
        if draw(st.integers(0, 2)) == 0:
            f["id"] = f["id"] or f"own{j}"
    with_id = [f["id"] for f in m["facts"] if f["id"]]
    # a footnote link over facts (by id) and texts
    foot = []
    if with_id:
        for f in draw(st.lists(st.sampled_from(with_id), max_size=4)):
            to = draw(st.sampled_from([["text", draw(gen.plain_text1)], ["fact", draw(st.sampled_from(with_id))]]))
            if to[0] == "text" or with_id.index(f) < with_id.index(to[1]) and [f, to] not in foot:
                foot.append([f, to])
    m["foot"] = foot
    return m


def strategy(tier):
    return _case(tier)


def files_of(m):
    m = dict(m)
    if m["foot"]:
        ids = list(dict.fromkeys(x for f, to in m["foot"] for x in ([f, to[1]] if to[0] == "fact" else [f])))
        wl = {"kind": "footnote", "role": xw.STD_LINK_ROLE, "locs": [{"href": "#" + i, "label": "l" + i} for i in ids], "resources": [], "arcs": []}
        for j, (f, to) in enumerate(m["foot"]):
            if to[0] == "text":
                wl["resources"].append({"label": f"r{j}", "role": "http://www.xbrl.org/2003/role/footnote", "lang": "en", "text": to[1]})
            wl["arcs"].append({"from": "l" + f, "to": "l" + to[1] if to[0] == "fact" else f"r{j}",
                               "arcrole": "http://www.xbrl.org/2009/arcrole/fact-explanatoryFact" if to[0] == "fact" else xw.ARC_FACT_FOOTNOTE})
        m["footnotes"] = [wl]
    files = tables.files_of(m)
    if m["refs"]:
        href = lambda ref: f'{m["schemas"][ref[0]]["file"]}#{m["schemas"][ref[0]]["elements"][ref[1]]["id"]}'  # noqa: E731
        wl = {"kind": "reference", "role": xw.STD_LINK_ROLE, "locs": [], "resources": [], "arcs": []}
        for j, (x, parts) in enumerate(m["refs"]):
            wl["locs"].append({"href": href(x), "label": f"l{j}"})
            wl["resources"].append({"label": f"r{j}", "role": "http://www.xbrl.org/2003/role/reference",
                                    "parts": [[n, p] for n, p in zip(["Name", "Paragraph"], parts)]})
            wl["arcs"].append({"from": f"l{j}", "to": f"r{j}", "arcrole": xw.ARC_CONCEPT_REF})
        files["ref.xml"] = xw.linkbase_xml({"links": [wl]})
        inst = files["i.xml"]
        at = re.search(r"<link:schemaRef[^>]*?/>(?!.*<link:schemaRef)", inst, re.S).end()
        files["i.xml"] = inst[:at] + ('<link:linkbaseRef xlink:type="simple" xlink:href="ref.xml" '
                                      'xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>') + inst[at:]
    return files


def printed(x):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pprint(x)
    return out.getvalue()


def flat(text):
    return "".join(text.split())


TAG = {"concept": "CONCEPT", "abstract": "ABSTRACT", "lineitems": "LINE ITEMS", "hypercube": "HYPERCUBE", "dimension": "DIMENSION", "member": "MEMBER"}
LINE = re.compile(r"^((?:│  |   )*)(├──|└──)(.*)$", re.S)


def prefixed(q):
    return f"{q.get_prefix()}:{q.get_local_name()}"


def expect_line(body, n, out):
    if hasattr(n, "get_weight"):
        w = re.match(r"\[W= *([^\] ]+) *\] *", body)
        expect(w is not None and float(w.group(1)) == float(n.get_weight()), lambda: f"weight {n.get_weight()} printed as {body!r}")
        out.add("weight")
        body = body[w.end():]
    to = n.points_to()
    if to == "report element":
        e = n.get_report_element()
        expect_eq(body.strip(), f"[{TAG[obs.kind_of(e)]}] {prefixed(e.get_name())}", "line of a report element")
        return
    if to == "fact":
        out.add("fact node")
        f = n.get_fact()
        for x in [f.get_id() or "", prefixed(f.get_concept().get_name()), str(f)]:
            expect(x in body, lambda: f"{x!r} is missing in the line {body!r} of a fact")
        return
    r = n.get_resource()
    c = r.get_content()
    kind = {"BrelLabel": "LABEL", "BrelReference": "REFERENCE", "BrelFootnote": "FOOTNOTE"}[type(r).__name__]
    expect(f"[{kind}]" in body, lambda: f"line {body!r} of a {kind}")
    for x in (list(map(repr, c)) + list(map(repr, c.values())) if isinstance(c, dict) else [c]):
        expect(x in body, lambda: f"{x!r} is missing in the line {body!r} of a {kind}")
    expect(r.get_role().split("/")[-1] in body, "role of a resource")


def expect_tree(text, roots, what, out):
    """The lines of the printed tree are the nodes in order, each under its parent."""
    pos = [0]

    def walk(n, last, header, depth):
        if depth >= 3:
            out.add("three levels")
        want = header + ("└──" if last else "├──")
        expect(text.startswith(want, pos[0]), lambda: f"{what}: {text[pos[0]:pos[0] + 60]!r} where a line with {want!r} should be, in {text!r}")
        end = text.find("\n", pos[0])
        while n.points_to() != "report element" and not re.match(r"(│  |   )*(├──|└──)|$", text[end + 1:].split("\n")[0]):
            end = text.index("\n", end + 1)  # a value of several lines
        body = text[pos[0] + len(want):end]
        expect_line(body, n, out)
        pos[0] = end + 1
        cs = n.get_children()
        for i, c in enumerate(cs):
            walk(c, i == len(cs) - 1, header + ("   " if last else "│  "), depth + 1)

    for i, r in enumerate(roots):
        walk(r, i == len(roots) - 1, "", 1)
    expect_eq(text[pos[0]:].strip(), "", f"{what}: what follows the last node")
    if len(roots) > 1:
        out.add("several roots")


def rows_of(text):
    rows = [[c.strip() for c in l.split("|")[1:-1]] for l in text.split("\n") if l.startswith("|")]
    expect(rows and len(rows[0]) == 1, "the title of a table")
    return rows[1], rows[2:]


def cells(f):
    return {**{a.get_name(): str(f.get_characteristic(a)).strip() for a in f.get_aspects()}, "value": str(f).strip()}


def check(m):
    out = set()
    filing = obs.open_files(files_of(m), "i.xml")
    obs.expect_no_errors(filing)
    with under_test("printing"):
        comps = filing.get_all_components()
        networks = [n for c in comps for n in c.get_networks()] + filing.get_all_physical_networks()
        texts = {}
        for n in networks:
            text = printed(n)
            texts[id(n)] = text
            head, _, tree = text.partition("\n")
            expect(n.get_link_role() in head and prefixed(n.get_link_name()) in head, lambda: f"first line of a network: {head!r}")
            head, _, tree = tree.partition("\n")
            for a in n.get_arc_roles():
                expect(str(a) in head, lambda: f"{a!r} is missing in {head!r}")
            out.add(obs.net_kind(n))
            expect_tree(tree, n.get_roots(), f"a {obs.net_kind(n)} network", out)
            for r in n.get_roots():
                for c in r.get_children()[:2]:
                    expect_tree(printed(c), [c], "a node", set())
        want = ""
        for c in comps:
            nets_ = c.get_networks()
            head = flat(f"Component: {c.get_URI()} Info: {c.get_info()}")
            body = flat("".join(texts[id(n)] for n in nets_))
            got = flat(printed(c))
            if nets_:
                expect_eq(got, head + body, "a printed component")
                out.add("component with networks")
            else:
                expect(got.startswith(head) and len(got) > len(head), lambda: f"{got!r} printed for a component without networks")
                out.add("component without network")
            want += got
            if re.search(r"\[[a-z/].*\]", c.get_info()):
                out.add("markup in info")
            if len(c.get_info()) > 80:
                out.add("long info")
        if comps:
            expect_eq(flat(printed(comps)), want, "a printed list of components")

        facts = filing.get_all_facts()
        for some in ([facts, facts[::-2] + facts[:2]] if len(facts) > 1 else [facts]):
            given = list(map(id, some))
            text = printed(some)
            expect_eq(list(map(id, some)), given, "the list of facts that is printed, afterwards")
            if m["raw"]:
                for f in some:
                    for line in re.split(r"\r?\n", str(f)):
                        expect(line.strip() in text, lambda: f"{line!r} of a value is missing in {text!r}")
                continue
            cols, rows = rows_of(text)
            expect_eq(sorted(cols), sorted(["id", "value"] + list({a.get_name() for f in some for a in f.get_aspects()})), "columns of the fact table")
            got = sorted(sorted([c, x] for c, x in zip(cols, r) if x not in ("None", "")) for r in rows)
            exp = sorted(sorted([k, x] for k, x in {**cells(f), "id": f.get_id() or ""}.items() if x not in ("None", "")) for f in some)
            expect_eq(got, exp, "rows of the fact table")
            if len(rows) > 1:
                out.add("several facts")
        if not facts:
            out.add("no facts")
        for f in facts:
            text = printed(f)
            if any(not a.is_core() for a in f.get_aspects()):
                out.add("dimension column")
            if f.get_unit() is not None:
                out.add("unit")
            if not f.get_id():
                out.add("no id")
            if any(ord(c) > 0x2e80 for c in str(f)):
                out.add("wide characters")
            if m["raw"]:
                for line in re.split(r"\r?\n", str(f)):
                    expect(line.strip() in text, lambda: f"{line!r} of the value is missing in {text!r}")
                if "\n" in str(f):
                    out.add("several lines")
                continue
            _, rows = rows_of(text)
            expect_eq(sorted(rows), sorted([k, x] for k, x in cells(f).items()), "table of a fact")
        for x in [1, "text", None, filing, [1], ["x"]]:
            try:
                printed(x)
            except TypeError:
                continue
            expect(False, f"pprint({type(x).__name__}) printed something")
    return out


def nontrivial(m, labels):
    return bool({"three levels", "several facts"} & labels)
