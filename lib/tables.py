"""Reports with facts, labels and networks, and the tables and dictionaries that brel makes of them."""
from hypothesis import strategies as st

from lib import gen, nets, xw
from lib.harness import expect_eq

LANGS = ["en", "en-US", "de-DE", "de", "fr-FR", "EN-us", "it-IT", "pt-BR", "fr"]
LABEL_ROLES = [xw.STD_LABEL, xw.STD_LABEL, "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/documentation"]
EXTRA = [
    {"name": "OneLineItems", "sg": "xbrli:item", "type": "xbrli:stringItemType", "abstract": "true"},
    {"name": "OneTable", "sg": "xbrldt:hypercubeItem", "type": "xbrli:stringItemType", "abstract": "true"},
    {"name": "OneAbstract", "sg": "xbrli:item", "type": "xbrli:stringItemType", "abstract": "true"},
    {"name": "Money", "sg": "xbrli:item", "type": "xbrli:monetaryItemType", "balance": "credit"},
    {"name": "Percent", "sg": "xbrli:item", "type": "num:percentItemType", "balance": None},
]


@st.composite
def report(draw, tier, max_facts=8):
    m = draw(gen.fact_filing(max_facts=max_facts, big=True))
    for x in draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique_by=lambda x: x["name"])):
        m["schemas"][0]["elements"].append({**x, "id": "x_" + x["name"], "periodType": "duration"})
    m["schema_nsmap"] = {"num": "http://www.xbrl.org/dtr/type/numeric"}
    for u in m["units"]:
        if draw(st.integers(0, 2)) == 0:
            # names of units that translations exist for
            u["id"] = draw(st.sampled_from([i for i in ["USD", "shares", "pure", "EUR"] if i not in [v["id"] for v in m["units"]]]))
    pool = [[k, i] for k, s in enumerate(m["schemas"]) for i, e in enumerate(s["elements"]) if e.get("sg")]
    labels = []
    for ref in draw(st.lists(st.sampled_from(pool), max_size=5, unique_by=tuple)):
        for _ in range(draw(st.integers(1, 3))):
            labels.append({"of": ref, "lang": draw(st.sampled_from(LANGS)), "role": draw(st.sampled_from(LABEL_ROLES)),
                           "text": draw(gen.plain_text1)})
    m["labels"] = labels
    roles = draw(st.lists(st.sampled_from(nets.ROLES), max_size=3, unique=True))
    links = []
    for r in roles:
        for kind in ("presentation", "calculation", "definition"):
            if draw(st.booleans()):
                continue
            ok = [x for x in pool if kind != "calculation" or "abstract" not in m["schemas"][x[0]]["elements"][x[1]]]
            if len(ok) >= 2:
                nodes = draw(st.lists(st.sampled_from(ok), min_size=2, max_size=6, unique_by=tuple))
                links.append(draw(nets.link(kind, nodes, nets.ARCROLES[kind], max_arcs=6, attrs=nets.ATTRS[kind], role=r,
                                            allow_isolated=kind == "presentation")))
    m["roles"], m["links"] = roles, links
    m["infos"] = [draw(gen.plain_text1) for _ in roles]
    return m


def files_of(m):
    m = dict(m)
    href = lambda ref: f'{m["schemas"][ref[0]]["file"]}#{m["schemas"][ref[0]]["elements"][ref[1]]["id"]}'  # noqa: E731
    books = []
    if m["labels"]:
        locs = {}
        for l in m["labels"]:
            locs.setdefault(tuple(l["of"]), f"loc{len(locs)}")
        books.append({"file": "lab.xml", "links": [{
            "kind": "label", "role": "http://www.xbrl.org/2003/role/link",
            "locs": [{"href": href(r), "label": x} for r, x in locs.items()],
            "resources": [{"label": f"lab{j}", "role": l["role"], "lang": l["lang"], "text": l["text"]} for j, l in enumerate(m["labels"])],
            "arcs": [{"arcrole": xw.ARC_CONCEPT_LABEL, "from": locs[tuple(l["of"])], "to": f"lab{j}"}
                     for j, l in enumerate(m["labels"])]}]})
    if m["links"]:
        books.append({"file": "net.xml", "links": [nets.serialise(l, href)[0] for l in m["links"]]})
    m["linkbases"] = books
    m["linkbaseRefs"] = [b["file"] for b in books]
    m["schemas"] = [dict(s) for s in m["schemas"]]
    m["schemas"][0]["roles"] = [{"uri": r, "id": f"r{i}", "def": d, "usedOn": list(nets.USED_ON.values())}
                                for i, (r, d) in enumerate(zip(m["roles"], m["infos"]))]
    return gen.files_of(m)


def frame_rows(df):
    """[columns, rows]: every row has the cells that are not missing."""
    rows = []
    for _, r in df.iterrows():
        rows.append({str(c): v for c, v in r.items() if not (isinstance(v, float) and v != v) and v is not None})
    return [list(map(str, df.columns)), rows]


def expect_frame(df, want, what):
    cols, rows = frame_rows(df)
    wcols = list(dict.fromkeys(c for r in want for c in r))
    expect_eq(sorted(cols), sorted(wcols), f"{what}: columns")
    expect_eq(rows, [{k: v for k, v in r.items() if v is not None} for r in want], f"{what}: rows")
