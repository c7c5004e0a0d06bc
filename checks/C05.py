"""C05  Report elements: one per declaration, with its kind and attributes."""
from hypothesis import strategies as st

from lib import gen, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C05"
QUICK = 12000
THOROUGH = 150000
RULE = ("taxonomies of 1-3 schemas (linked by import, include or schemaRef) of up to 14 declarations of any shape; "
        "non-trivial = at least two kinds of report elements and four declarations")
MUST_HIT = ["concept", "abstract", "lineitems", "hypercube", "dimension", "member", "typed dimension",
            "typed, other schema", "no element", "no id", "include", "import", "abstract=1", "balance", "same local name",
            "nillable=1", "anonymous domain", "non-abstract member", "id collision"]

CONCEPT_TYPES = gen.NUMERIC_TYPES + gen.INTEGER_TYPES + gen.TEXT_TYPES + [
    "xbrli:booleanItemType", "xbrli:positiveIntegerItemType", "xbrli:shortItemType", "num:percentItemType",
    "num:perShareItemType", "nonnum:textBlockItemType", "own:colourItemType", "xbrli:QNameItemType",
    "xbrli:gYearItemType", "xbrli:durationItemType"]
NS = {"nonnum": "http://www.xbrl.org/dtr/type/non-numeric", "num": "http://www.xbrl.org/dtr/type/numeric",
      "own": "http://example.com/own-types"}
NUMERIC = set(gen.NUMERIC_TYPES + gen.INTEGER_TYPES + ["xbrli:positiveIntegerItemType", "xbrli:shortItemType",
                                                       "num:percentItemType", "num:perShareItemType"])
INTEGER = set(gen.INTEGER_TYPES + ["xbrli:positiveIntegerItemType", "xbrli:shortItemType"])
PRED_UNKNOWN = {"own:colourItemType"}
TRUE, FALSE = ["true", "true", "1"], [None, "false", "0"]


@st.composite
def _decl(draw, k, j):
    name = draw(gen.ncname())
    shape = draw(st.sampled_from(["concept"] * 5 + ["abstract", "abstract", "lineitems", "hypercube", "dimension",
                                                    "dimension", "typed", "member", "member", "other", "other", "rawtype"]))
    e = {"name": name, "shape": shape}
    if draw(st.integers(0, 5)):
        e["id"] = draw(st.sampled_from(["x", "el"])) + (f"{j}" if draw(st.booleans()) else f"_{k}_{j}")
    else:
        e["id"] = None
    period = draw(st.sampled_from(["instant", "duration"]))
    if shape == "concept":
        e.update(type=draw(st.sampled_from(CONCEPT_TYPES)), sg="xbrli:item", periodType=period,
                 abstract=draw(st.sampled_from(FALSE)), nillable=draw(st.sampled_from([None, "true", "false", "1", "0"])))
        if e["type"] == "xbrli:monetaryItemType":
            e["balance"] = draw(st.sampled_from([None, "debit", "credit"]))
    elif shape == "abstract":
        e.update(name=name.replace("LineItems", "Lines"), type="xbrli:stringItemType", sg="xbrli:item", periodType=period,
                 abstract=draw(st.sampled_from(TRUE)), nillable=draw(st.sampled_from([None, "true"])))
    elif shape == "lineitems":
        e.update(name=draw(st.sampled_from([name + "LineItems", "LineItems" + name, name + "LineItems-x"])),
                 type="xbrli:stringItemType", sg="xbrli:item", periodType=period, abstract=draw(st.sampled_from(TRUE)))
    elif shape == "hypercube":
        e.update(type="xbrli:stringItemType", sg="xbrldt:hypercubeItem", periodType=period,
                 abstract=draw(st.sampled_from(TRUE)))
    elif shape in ("dimension", "typed"):
        e.update(type="xbrli:stringItemType", sg="xbrldt:dimensionItem", periodType=period,
                 abstract=draw(st.sampled_from(TRUE)))
    elif shape == "member":
        e.update(type="nonnum:domainItemType", sg="xbrli:item", periodType=period,
                 abstract=draw(st.sampled_from(TRUE + FALSE)), nillable="true")
    elif shape == "other":
        e.update(type=draw(st.sampled_from(["xs:string", "xs:integer", None])),
                 sg=draw(st.sampled_from([None, None, "xbrli:tuple", "link:part"])), abstract=draw(st.sampled_from(FALSE)))
    return e


@st.composite
def _case(draw, tier):
    nsch = draw(st.integers(1, 3))
    links = [draw(st.sampled_from(["import", "include", "ref"])) for _ in range(nsch - 1)]
    if nsch == 3 and links[1] == "include":
        links[1] = "import"
    uris = draw(st.lists(st.sampled_from(gen.NAMESPACES), min_size=nsch, max_size=nsch, unique=True))
    prefixes = draw(st.lists(st.sampled_from(gen.PREFIXES), min_size=nsch, max_size=nsch, unique=True))
    schemas, seen = [], set()
    for k in range(nsch):
        ns, prefix = uris[k], prefixes[k]
        if k > 0 and links[k - 1] == "include":
            ns, prefix = schemas[0]["ns"], schemas[0]["prefix"]
        els = [{"name": f"dom{k}", "id": f"dom{k}", "shape": "other",
                "type": draw(st.sampled_from(["xs:string", "xs:date", None]))}]
        for j in range(draw(st.integers(1, 14 if tier == "thorough" else 9))):
            e = draw(_decl(k, j))
            if (ns, e["name"]) in seen or any(e["id"] and e["id"] == o["id"] for o in els):
                continue
            seen.add((ns, e["name"]))
            els.insert(draw(st.integers(0, len(els))), e)
        if k and draw(st.booleans()):
            e = dict(draw(st.sampled_from(schemas[0]["elements"])))
            e["id"] = f"twin{k}"
            if (ns, e["name"]) not in seen and e["shape"] != "typed":
                seen.add((ns, e["name"]))
                els.append(e)
        schemas.append({"file": f"s{k}.xsd", "ns": ns, "prefix": prefix, "elements": els})
    for k, s in enumerate(schemas):
        for e in s["elements"]:
            if e["shape"] == "typed":
                e["domain"] = draw(st.integers(0, nsch - 1))
                e["domref_same"] = draw(st.sampled_from(["#", "file#"]))
    return {"schemas": schemas, "links": links}


def strategy(tier):
    return _case(tier)


def check(m):
    labels = set()
    files = {}
    refs = ["s0.xsd"]
    for k, s in enumerate(m["schemas"]):
        w = {**s, "imports": [], "includes": [], "elements": []}
        if k == 0:
            for j, l in enumerate(m["links"], 1):
                o = m["schemas"][j]
                if l == "import":
                    w["imports"].append({"ns": o["ns"], "loc": o["file"]})
                elif l == "include":
                    w["includes"].append(o["file"])
                else:
                    refs.append(o["file"])
        for e in s["elements"]:
            if e["shape"] == "rawtype":
                w["elements"].append({"rawxml": f'<xs:complexType name="T{e["name"]}"><xs:sequence><xs:element '
                                                f'name={xw.qa(e["name"])} type="xs:string"/></xs:sequence></xs:complexType>\n'})
                continue
            if e["shape"] == "other" and e["type"] is None and not e.get("sg"):
                w["elements"].append({"rawxml": f'<xs:element name={xw.qa(e["name"])}' + xw.attrs([("id", e["id"])]) +
                                      '><xs:simpleType><xs:restriction base="xs:string"/></xs:simpleType></xs:element>\n'})
                continue
            o = dict(e)
            if e["shape"] == "typed":
                same = e["domain"] == k and e["domref_same"] == "#"
                o["typedDomainRef"] = ("" if same else f's{e["domain"]}.xsd') + f'#dom{e["domain"]}'
            w["elements"].append(o)
        files[s["file"]] = xw.schema_xml(w, NS)
    files["i.xml"] = xw.instance_xml({"schemaRefs": refs})
    filing = obs.open_files(files, "i.xml")

    want = {}
    for s in m["schemas"]:
        for e in s["elements"]:
            shape = e["shape"]
            if shape in ("other", "rawtype"):
                labels.add("no element")
                continue
            kind = "dimension" if shape == "typed" else shape
            v = {"name": "{%s}%s" % (s["ns"], e["name"]), "kind": kind, "id": e["id"], "labels": []}
            if kind == "concept":
                v.update(period_type=e["periodType"], balance=e.get("balance"),
                         nillable=e["nillable"] in ("true", "1"), data_type=e["type"])
            if kind == "dimension":
                v["typed"] = None
                if shape == "typed":
                    o = m["schemas"][e["domain"]]
                    d = next(x for x in o["elements"] if x["name"] == f'dom{e["domain"]}')
                    v["typed"] = ("{%s}%s" % (o["ns"], d["name"]) if d["type"] is None
                                  else "{http://www.w3.org/2001/XMLSchema}" + d["type"].split(":")[1])
                    labels.add("typed dimension")
                    if d["type"] is None:
                        labels.add("anonymous domain")
                    if o is not s:
                        labels.add("typed, other schema")
            want[v["name"]] = v
            labels.add(kind)
            if e["id"] is None:
                labels.add("no id")
            if e.get("abstract") == "1":
                labels.add("abstract=1")
            if e.get("balance"):
                labels.add("balance")
            if e.get("nillable") == "1" and kind == "concept":
                labels.add("nillable=1")
            if kind == "member" and e["abstract"] in FALSE:
                labels.add("non-abstract member")

    got = obs.elements_view(filing)
    expect_eq(sorted(v["name"] for v in got), sorted(want), "the report elements")
    for v in got:
        expect_eq(v, want[v["name"]], f"report element {v['name']}")
    with under_test("the typed getters"):
        for kind, getter in [("concept", filing.get_all_concepts), ("abstract", filing.get_all_abstracts),
                             ("lineitems", filing.get_all_line_items), ("hypercube", filing.get_all_hypercubes),
                             ("dimension", filing.get_all_dimensions), ("member", filing.get_all_members)]:
            expect_eq(sorted(obs.clark(e.get_name()) for e in getter()),
                      sorted(n for n, v in want.items() if v["kind"] == kind), f"get_all_{kind}s")
        for c in filing.get_all_concepts():
            t = c.get_data_type()
            if t not in PRED_UNKNOWN:
                expect_eq([c.is_numeric(), c.is_integer(), c.is_boolean(), c.is_textual()],
                          [t in NUMERIC, t in INTEGER, t == "xbrli:booleanItemType", t not in NUMERIC],
                          f"is_numeric, is_integer, is_boolean, is_textual of type {t}")
        for d in filing.get_all_dimensions():
            typed = want[obs.clark(d.get_name())]["typed"]
            expect_eq(d.is_explicit(), typed is None, "is_explicit")
            if typed is None:
                try:
                    d.get_type()
                    expect(False, "get_type of an explicit dimension gave a type")
                except ValueError:
                    pass
    obs.expect_no_errors(filing)
    labels |= set(m["links"]) - {"ref"}
    names = [n.split("}")[1] for n in want]
    if len(set(names)) < len(names):
        labels.add("same local name")
    ids = [v["id"] for v in want.values() if v["id"]]
    if len(set(ids)) < len(ids):
        labels.add("id collision")
    return labels


KINDS = {"concept", "abstract", "lineitems", "hypercube", "dimension", "member"}


def nontrivial(m, labels):
    return len(labels & KINDS) >= 2 and sum(len(s["elements"]) for s in m["schemas"]) >= 4
