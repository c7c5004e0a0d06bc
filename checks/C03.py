"""C03  Entity and unit of a fact are those of its context and unitRef."""
from hypothesis import strategies as st

from lib import gen, obs, xw
from lib.harness import expect, expect_eq, under_test
from brel.characteristics import Aspect

ID = "C03"
QUICK = 10000
THOROUGH = 60000
RULE = ("1-2 XML instance documents in one folder, each with its own contexts (entities) and units drawn from small id pools "
        "so that ids collide, and facts combining them; non-trivial = a unit id or context id used by two documents, a unit with several "
        "measures, or two schemes sharing an identifier")
MUST_HIT = ["divide", "product", "unit id in two documents", "same identifier, other scheme", "no unit",
            "equal units, other id", "padded measure"]

measure = st.sampled_from(gen.MEASURES)


@st.composite
def _doc(draw):
    units = []
    for uid in draw(st.lists(st.sampled_from(["u", "usd", "U", "u1", "shares"]), min_size=1, max_size=3, unique=True)):
        shape = draw(st.sampled_from(["simple", "simple", "product", "divide", "divide"]))
        num = draw(st.lists(measure, min_size=1 if shape != "product" else 2, max_size=1 if shape == "simple" else 3))
        den = draw(st.lists(measure, min_size=1, max_size=2)) if shape == "divide" else []
        units.append({"id": uid, "num": num, "den": den, "pad": draw(st.sampled_from(["", "", " ", "\n   "])),
                      "swap": draw(st.booleans())})
    contexts = []
    for cid in draw(st.lists(st.sampled_from(["c", "C", "c1", "ctx"]), min_size=1, max_size=3, unique=True)):
        contexts.append({"id": cid, "scheme": draw(st.sampled_from(gen.SCHEMES)),
                         "entity": draw(st.sampled_from(gen.ENTITIES)), "period": draw(gen.period()),
                         "pad": draw(st.sampled_from(["", "", " ", "\n "]))})
    # near misses: a context or unit that differs from another one in one part
    if draw(st.integers(0, 2)) == 0:
        c = draw(st.sampled_from(contexts))
        part = draw(st.sampled_from(["scheme", "entity"]))
        contexts.append({**c, "id": "near", part: draw(st.sampled_from(
            [c[part] + "x", c[part][:-1].strip() or "y", c[part].swapcase(), "0" + c[part], c[part] + "/"]))})
    if draw(st.integers(0, 2)) == 0:
        u = draw(st.sampled_from(units))
        turned = {**u, "id": "near", "num": u["den"], "den": u["num"]}
        longer = {**u, "id": "near", "num": u["num"] + [draw(measure)]}
        units.append(turned if u["den"] and draw(st.booleans()) else longer)
    facts = [{"ctx": draw(st.integers(0, len(contexts) - 1)),
              "unit": draw(st.one_of(st.none(), st.integers(0, len(units) - 1), st.integers(0, len(units) - 1)))}
             for _ in range(draw(st.integers(1, 6)))]
    order = draw(st.permutations(["context", "unit", "fact"]))
    return {"units": units, "contexts": contexts, "facts": facts, "default_xbrli": draw(st.booleans()), "order": order}


def strategy(tier):
    return st.builds(lambda docs: {"docs": docs}, st.lists(_doc(), min_size=1, max_size=2 if tier == "quick" else 4))


SCHEMA = {"ns": "http://example.com/a", "prefix": "a", "elements": [
    {"name": "C", "id": "a_C", "type": "xbrli:decimalItemType", "sg": "xbrli:item", "periodType": "duration"}]}


def _unit(u, px):
    def m(q):
        return f"<{px}measure>{u['pad']}{q}{u['pad']}</{px}measure>"
    if not u["den"]:
        body = "".join(map(m, u["num"]))
    else:
        parts = [f"<{px}unitNumerator>{''.join(map(m, u['num']))}</{px}unitNumerator>",
                 f"<{px}unitDenominator>{''.join(map(m, u['den']))}</{px}unitDenominator>"]
        if u["swap"]:
            parts.reverse()
        body = f"<{px}divide>{''.join(parts)}</{px}divide>"
    return f'<{px}unit id="{u["id"]}">{body}</{px}unit>\n'


def check(m):
    labels = set()
    files = {"s.xsd": xw.schema_xml(SCHEMA)}
    want = {}
    for d, doc in enumerate(m["docs"]):
        px = "" if doc["default_xbrli"] else "xbrli:"
        parts = {"unit": "".join(_unit(u, px) for u in doc["units"]), "context": "", "fact": ""}
        for c in doc["contexts"]:
            parts["context"] += (
                f'<{px}context id="{c["id"]}"><{px}entity><{px}identifier scheme={xw.qa(c["scheme"])}>{c["pad"]}'
                f'{xw.esc(c["entity"])}{c["pad"]}</{px}identifier></{px}entity>{xw.period_xml(c["period"], px)}'
                f'</{px}context>\n')
        for j, f in enumerate(doc["facts"]):
            c = doc["contexts"][f["ctx"]]
            u = None if f["unit"] is None else doc["units"][f["unit"]]
            parts["fact"] += xw.fact_xml({"concept": "a:C", "id": f"d{d}f{j}", "ctx": c["id"], "value": str(d * 100 + j),
                                          "unit": u and u["id"]})
            want[f"d{d}f{j}"] = (c, u)
        files[f"i{d}.xml"] = xw.instance_xml({
            "schemaRefs": ["s.xsd"], "nsmap": {"a": SCHEMA["ns"], **gen.UNIT_NS},
            "raw": "".join(parts[k] for k in doc["order"]), "default_xbrli": doc["default_xbrli"]})
    filing = obs.open_files(files, "i0.xml" if len(m["docs"]) == 1 else "", "opening well-formed instances")
    with under_test("reading entities and units"):
        facts = {f.get_id(): f for f in filing.get_all_facts()}
        expect_eq(sorted(facts), sorted(want), "facts of all instance documents")
        entities = {}
        for k, (c, u) in want.items():
            f = facts[k]
            e = f.get_entity()
            expect(e is not None, f"fact {k} has no entity")
            key = "{%s}%s" % (c["scheme"], c["entity"])
            expect_eq((e.get_value(), str(e), e.get_schema()), (key, key, c["scheme"]), f"entity of fact {k}")
            expect_eq(f.get_context().get_entity(), e, "entity of the fact's context")
            expect_eq(f.get_context().get_characteristic_as_str(Aspect.ENTITY), key, "entity as text")
            for okey, oe in entities.items():
                expect_eq(e == oe, key == okey, f"equality of the entities {key} and {okey}")
            entities[key] = e
            g = f.get_unit()
            expect_eq(f.get_context().get_unit(), g, "unit of the fact's context")
            expect_eq(f.get_context().has_characteristic(Aspect.UNIT), u is not None, f"fact {k} has the unit aspect")
            if u is None:
                expect(g is None, f"fact {k} has no unitRef, but the unit {g}")
                expect_eq(f.get_context().get_characteristic_as_str(Aspect.UNIT), "", "text of a missing unit")
                labels.add("no unit")
                continue
            expect(g is not None, f"fact {k} has no unit")
            expect_eq(obs.unit_view(g),
                      {"name": u["id"], "num": sorted(map(gen.measure_clark, u["num"])),
                       "den": sorted(map(gen.measure_clark, u["den"]))}, f"unit of fact {k}")
            expect_eq(g.is_simple(), len(u["num"]) == 1 and not u["den"], "is_simple of the unit")
            expect_eq((g.get_value(), str(g)), (u["id"], u["id"]), "name of the unit")
            labels.add("divide" if u["den"] else "product" if len(u["num"]) > 1 else "simple")
            if u["pad"]:
                labels.add("padded measure")
    obs.expect_no_errors(filing)
    docs = m["docs"]
    if len(docs) > 1:
        ids = [u["id"] for d in docs for u in d["units"]]
        if len(set(ids)) < len(ids):
            labels.add("unit id in two documents")
        ids = [u["id"] for d in docs for u in d["contexts"]]
        if len(set(ids)) < len(ids):
            labels.add("context id in two documents")
    ents = {(c["scheme"], c["entity"]) for d in docs for c in d["contexts"]}
    if len({e for _, e in ents}) < len(ents):
        labels.add("same identifier, other scheme")
    us = [(u["id"], sorted(u["num"]), sorted(u["den"])) for d in docs for u in d["units"]]
    if any(a[1:] == b[1:] and a[0] != b[0] for a in us for b in us):
        labels.add("equal units, other id")
    return labels


def nontrivial(m, labels):
    return bool(labels & {"unit id in two documents", "context id in two documents", "divide", "product",
                          "same identifier, other scheme"})
