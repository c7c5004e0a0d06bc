"""C07  Labels belong to their element, with text, language and role."""
from hypothesis import strategies as st

from lib import gen, nets, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C07"
QUICK = 10000
THOROUGH = 120000
RULE = ("taxonomies of 1-2 schemas with 1-3 label links in 1-3 linkbases, m:n arcs, inherited languages, markup in labels; "
        "non-trivial = at least two elements with labels and three labels in all")
MUST_HIT = ["several labels", "no label", "several links", "several files", "lang on link", "lang on linkbase", "markup",
            "no role", "fan of labels", "fan of elements", "shared label", "orphan", "main en", "main other", "relabelled",
            "comment", "id collision", "other link role"]

ROLES = [None, xw.STD_LABEL, xw.STD_LABEL, "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/totalLabel",
         "http://www.xbrl.org/2003/role/periodStartLabel", "http://example.com/role/custom", "http://www.xbrl.org/2003/role/labe"]
LANGS = ["en", "en-US", "en-GB", "de", "de-CH", "fr", "EN", "EN-US", "EN-GB", "zh-Hans", "en-us", "x-klingon", "eng"]
STD_LANGS = ["en", "en-US", "en-GB", "EN", "EN-US", "EN-GB"]


@st.composite
def _link(draw, everything):
    els = draw(st.lists(st.sampled_from(everything), min_size=1, max_size=4, unique_by=tuple))
    res = [{"text": draw(gen.xml_text), "role": draw(st.sampled_from(ROLES)),
            "lang": draw(st.sampled_from(LANGS + [None, None])),
            "markup": draw(st.sampled_from(["plain", "plain", "plain", "xhtml", "comment"]))}
           for _ in range(draw(st.integers(1, 6)))]
    # an arc leads from a set of elements (locators with one label) to a set of resources (with one label)
    pairs, arcs = set(), []
    for _ in range(draw(st.integers(0, 6))):
        e = draw(st.lists(st.integers(0, len(els) - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2])), unique=True))
        r = draw(st.lists(st.integers(0, len(res) - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])), unique=True))
        new = {(x, y) for x in e for y in r}
        if new & pairs:
            continue
        pairs |= new
        arcs.append({"e": e, "r": r})
    return {"els": els, "res": res, "arcs": arcs, "lang": draw(st.sampled_from(LANGS + [None, None])),
            "role": draw(st.sampled_from(["http://www.xbrl.org/2003/role/link"] * 3 + nets.ROLES)),
            "seq": draw(st.integers(0, 10**6))}


@st.composite
def _case(draw, tier):
    tax = draw(nets.taxonomy(2, 6))
    everything = nets.refs(tax)
    files = [{"lang": draw(st.sampled_from([None, "de", "en"])), "links": draw(st.lists(_link(everything), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 5])))),
              "from": draw(st.sampled_from(["schema", "instance"]))} for _ in range(draw(st.integers(1, 3)))]
    return {"tax": tax, "files": files}


def strategy(tier):
    return _case(tier)


def _serialise(m, lb, link, labels):
    """XML of one label link and the (element, label view) pairs it declares."""
    import random
    rnd = random.Random(link["seq"])
    # resources need a label; those in one arc target group share one.  Every group must be told apart, and a resource can only
    # have one xlink:label: so groups that share a resource become several arcs.
    label_of = {}
    items, got = [], []
    group = {}
    owner = {}
    for a in link["arcs"]:
        for y in a["r"]:
            owner.setdefault(y, []).append(a)
    rl = {}
    n = 0
    for a in link["arcs"]:
        if len(a["r"]) > 1 and all(len(owner[y]) == 1 for y in a["r"]):
            for y in a["r"]:
                rl[y] = f"g{n}"
            labels.add("fan of labels")
            n += 1
    for y in range(len(link["res"])):
        rl.setdefault(y, f"r{y}")
    for y, r in enumerate(link["res"]):
        lang = r["lang"] or link["lang"] or lb["lang"]
        if lang is None:
            lang = r["lang"] = "pt"
        if r["lang"] is None:
            labels.add("lang on link" if link["lang"] else "lang on linkbase")
        t = r["text"]
        if r["markup"] == "xhtml":
            body = f'{xw.esc(t)}<h:b xmlns:h="http://www.w3.org/1999/xhtml">bold <h:i>it</h:i></h:b> tail'
            text = t + "bold it tail"
            labels.add("markup")
        elif r["markup"] == "comment":
            body, text = f"{xw.esc(t)}<!-- no text -->&amp;", t + "&"
            labels.add("comment")
        else:
            body, text = xw.esc(t), t
        a = xw.attrs([("xlink:label", rl[y]), ("xlink:role", r["role"]), ("xml:lang", r["lang"]), ("id", f"lab{y}")])
        items.append(f'<link:label xlink:type="resource"{a}>{body}</link:label>\n')
        r["view"] = [text, lang, r["role"] or xw.STD_LABEL]
        if r["role"] is None:
            labels.add("no role")
        if y not in owner:
            labels.add("orphan")
        elif sum(len(a["e"]) for a in owner[y]) > 1:
            labels.add("shared label")

    def loc(x, label):
        items.append('<link:loc xlink:type="locator"' + xw.attrs([
            ("xlink:href", nets.href(m["tax"], link["els"][x])), ("xlink:label", label)]) + "/>\n")

    for i, a in enumerate(link["arcs"]):
        if len(a["e"]) > 1:
            frm = f"fan{i}"
            for x in a["e"]:
                loc(x, frm)
            labels.add("fan of elements")
        else:
            x = a["e"][0]
            if x not in label_of or rnd.random() < 0.3:
                if x in label_of:
                    labels.add("relabelled")
                label_of[x] = f"e{x}_{i}"
                loc(x, label_of[x])
            frm = label_of[x]
        for to in dict.fromkeys(rl[y] for y in a["r"]):
            items.append('<link:labelArc xlink:type="arc"' + xw.attrs([
                ("xlink:arcrole", xw.ARC_CONCEPT_LABEL), ("xlink:from", frm), ("xlink:to", to)]) + "/>\n")
        for x in a["e"]:
            for y in a["r"]:
                got.append((nets.clark(m["tax"], link["els"][x]), link["res"][y]["view"]))
    rnd.shuffle(items)
    if link["role"] != "http://www.xbrl.org/2003/role/link":
        labels.add("other link role")
    return (f'<link:labelLink xlink:type="extended"{xw.attrs([("xlink:role", link["role"]), ("xml:lang", link["lang"])])}>\n'
            + "".join(items) + "</link:labelLink>\n"), got


def check(m):
    labels = set()
    want = {nets.clark(m["tax"], r): [] for r in nets.refs(m["tax"])}
    files, extra, irefs = {}, {}, []
    for k, lb in enumerate(m["files"]):
        parts = []
        for link in lb["links"]:
            text, got = _serialise(m, lb, link, labels)
            parts.append(text)
            for name, view in got:
                want[name].append(view)
        name = f"lab{k}.xml"
        files[name] = (f'<?xml version="1.0"?>\n<link:linkbase xmlns:link="{xw.LINK}" xmlns:xlink="{xw.XLINK}"'
                       f'{xw.attrs([("xml:lang", lb["lang"])])}>\n' + "".join(parts) + "</link:linkbase>\n")
        if lb["from"] == "schema":
            extra.setdefault("s0.xsd", {"linkbaseRefs": []})["linkbaseRefs"].append(name)
        else:
            irefs.append(name)
    files.update(nets.tax_files(m["tax"], **extra))
    files["i.xml"] = xw.instance_xml({"schemaRefs": [s["file"] for s in m["tax"]["schemas"]], "linkbaseRefs": irefs})
    filing = obs.open_files(files, "i.xml")
    with under_test("reading the labels"):
        els = {obs.clark(e.get_name()): e for e in filing.get_all_report_elements()}
        expect_eq(sorted(els), sorted(want), "the report elements")
        for name, e in els.items():
            ls = e.get_labels()
            views = [obs.label_view(l) for l in ls]
            expect_eq(sorted(views), sorted(want[name]), f"labels of {name}")
            for l, v in zip(ls, views):
                expect_eq([str(l), l.get_role(), l.get_title(), l.convert_to_dict()],
                          [v[0], v[2], None, {"text": v[0], "language": v[1], "label_role": v[2]}], "views of one label")
            for role in {v[2] for v in views} | {r or "" for r in ROLES}:
                expect_eq(e.has_label_with_role(role), any(v[2] == role for v in views), f"has_label_with_role({role!r})")
            for lang in {v[1] for v in views} | set(LANGS):
                expect_eq(e.has_label_with_language(lang), any(v[1] == lang for v in views), f"has_label_with_language({lang!r})")
            main = e.select_main_label()
            if not views:
                labels.add("no label")
                expect_eq(main.get_content(), "NO_LABEL", "main label of an element without labels")
            else:
                i = next((i for s in STD_LANGS for i, v in enumerate(views) if v[1] == s), 0)
                labels.add("main en" if views[i][1] in STD_LANGS else "main other")
                expect(main is ls[i] or obs.label_view(main) == views[i],
                       f"main label of {name} is {obs.label_view(main)}, not {views[i]} (all: {views})")
    # the networks lead to the same labels, one place per arc
    with under_test("reading the label networks"):
        pairs = []
        for n in filing.get_all_physical_networks():
            if obs.net_kind(n) == "label":
                for root in n.get_roots():
                    if root.points_to() == "report element":
                        for c in root.get_children():
                            pairs.append([obs.clark(root.get_report_element().get_name()), obs.label_view(c.get_resource())])
    expect_eq(sorted(pairs), sorted([n, v] for n, vs in want.items() for v in vs), "labels in the label networks")
    obs.expect_no_errors(filing)
    if any(len(v) > 1 for v in want.values()):
        labels.add("several labels")
    if sum(len(lb["links"]) for lb in m["files"]) > 1:
        labels.add("several links")
    if len(m["files"]) > 1:
        labels.add("several files")
    ids = [e["id"] for s in m["tax"]["schemas"] for e in s["elements"]]
    if len(set(ids)) < len(ids):
        labels.add("id collision")
    return labels


def nontrivial(m, labels):
    arcs = [(tuple(l["els"][x])) for f in m["files"] for l in f["links"] for a in l["arcs"] for x in a["e"] for _ in a["r"]]
    return len(set(arcs)) >= 2 and len(arcs) >= 3
