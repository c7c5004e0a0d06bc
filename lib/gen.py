"""Shared Hypothesis strategies.  Every strategy yields plain JSON values."""
import zlib

from hypothesis import strategies as st
from lxml import etree

NCSTART = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"
NCREST = NCSTART + "0123456789-."

WORDS = ["Assets", "Revenue", "item", "Cash", "LineItems", "Domain", "Axis", "Table", "Member", "x",
         "Total-Net", "A.B", "Profit_Loss", "Straße", "measure", "domainItemType", "abstract", "Equity", "Long",
         "explicitMember", "periodType", "B2"]


@st.composite
def ncname(draw):
    base = draw(st.sampled_from(WORDS))
    tail = draw(st.text(alphabet="abcXYZ019_-.", max_size=3))
    return base + tail


def distinct_names(min_size, max_size, elements=None):
    return st.lists(elements if elements is not None else ncname(), min_size=min_size, max_size=max_size, unique=True)


# text that may stand in an XML document
TEXT_ALPHABET = ("abcdefghij ABC 0123456789 .,;:-_/()[]{}%$#@!?*+=~^|\\`" "\"'<>&" " \n\t"
                 "äöüßéñçÅøŒ€£¥§°²" "中文日本語한국" "абвЖЯ" "\u00a0\u200b\u2019\u201c\u2014\u2026" "😀𝒳")
xml_text = st.text(alphabet=TEXT_ALPHABET, min_size=0, max_size=24)
xml_text1 = st.text(alphabet=TEXT_ALPHABET, min_size=1, max_size=24)
plain_text1 = st.text(alphabet="abcdefgh ABC019.,-éü中&<>'\"", min_size=1, max_size=12).filter(lambda s: s.strip() != "")

NAMESPACES = ["http://example.com/a", "http://example.com/b", "http://example.com/a/2024", "http://example.com/A",
              "urn:x:y", "http://www.example.org/taxonomy/b#", "http://example.com/xbrl/"]
PREFIXES = ["a", "b", "us-gaap", "ifrs_full", "x1", "ex", "dei.x", "L"]

NUMERIC_TYPES = ["xbrli:monetaryItemType", "xbrli:decimalItemType", "xbrli:sharesItemType", "xbrli:pureItemType",
                 "xbrli:floatItemType", "xbrli:doubleItemType"]
INTEGER_TYPES = ["xbrli:integerItemType", "xbrli:nonNegativeIntegerItemType", "xbrli:intItemType",
                 "xbrli:longItemType"]
TEXT_TYPES = ["xbrli:stringItemType", "xbrli:normalizedStringItemType", "xbrli:dateItemType",
              "xbrli:anyURIItemType", "xbrli:tokenItemType"]

decimal_str = st.one_of(
    st.integers(-10**15, 10**15).map(str),
    st.builds(lambda s, a, b: f"{s}{a}.{b}", st.sampled_from(["", "-", "+"]), st.integers(0, 10**9),
              st.text(alphabet="0123456789", min_size=1, max_size=6)),
    st.sampled_from(["0", "-0", "0.0", "1", "-1", "007", "12.50", "1000000000000000000000", ".5", "5.",
                     "0.1", "0.10"]),
)
integer_str = st.one_of(st.integers(-10**18, 10**18).map(str), st.sampled_from(["0", "-0", "+5", "0012"]))

dates = st.dates(min_value=__import__("datetime").date(1900, 1, 1),
                 max_value=__import__("datetime").date(2100, 12, 31)).map(lambda d: d.isoformat())


@st.composite
def period(draw):
    if draw(st.booleans()):
        return ["instant", draw(dates)]
    a, b = draw(dates), draw(dates)
    if b < a:
        a, b = b, a
    return ["duration", a, b]


SCHEMES = ["http://www.sec.gov/CIK", "http://standards.iso.org/iso/17442", "urn:scheme", "http://example.com/s#x",
           "http://www.sec.gov/CIK/", "http://www.sec.gov/cik"]
ENTITIES = ["0000320193", "0000000001", "ACME", "529900T8BM49AURSDO55", "x y", "A&B", "}odd{", "ümlaut", "320193", "acme",
            "ACME Inc", "http://www.sec.gov/CIK"]

MEASURES = ["iso4217:USD", "iso4217:EUR", "iso4217:CHF", "xbrli:shares", "xbrli:pure", "u:kWh", "u:barrel", "u:kwh",
            "u:USD"]
UNIT_NS = {"u": "http://example.com/units"}


def value_for(draw, type_):
    if type_ in NUMERIC_TYPES:
        return draw(decimal_str)
    if type_ in INTEGER_TYPES:
        return draw(integer_str)
    if type_ == "xbrli:booleanItemType":
        return draw(st.sampled_from(["true", "false"]))
    return draw(xml_text1)


BIG = 40     # one case in so many is far larger than the others


def enlarge(contexts, facts, expdims, members, rnd):
    """Some dozens of contexts and facts like the ones there are, with further dates, entities, members, ids and values."""
    import datetime
    day = lambda d, n: (datetime.date.fromisoformat(d[:10]) + datetime.timedelta(n)).isoformat()  # noqa: E731
    old = list(contexts)
    for j in range(rnd.randint(8, 30)):
        c = rnd.choice(old)
        n = rnd.randint(-400, 400)
        ds = list(c["dims"])
        for kind, k, i in expdims:
            if rnd.random() < 0.6 and [k, i] not in [d["dim"] for d in ds]:
                ds.append({"kind": kind, "dim": [k, i], "member": rnd.choice(members)})
        contexts.append({**c, "id": f"c{len(old) + j}", "entity": rnd.choice([c["entity"], f"E{j}"]), "dims": ds,
                         "period": [c["period"][0]] + [day(d, n) for d in c["period"][1:]]})
    base = list(facts)
    for j in range(rnd.randint(15, 60)):
        f = dict(rnd.choice(base))
        f["ctx"] = rnd.randrange(len(contexts))
        f["id"] = f["id"] and f"{f['id']}x{j}"
        if not f["nil"] and f["unit"] is not None:
            f["value"] = str(rnd.randint(-10**6, 10**9))
        facts.append(f)


@st.composite
def fact_filing(draw, max_facts=8, max_schemas=2, dims=True, ids="mixed", units=True, decimals=False,
                max_ctx=4, reprefix=True, own_ctx=False, big=False):
    """A well-formed taxonomy (concepts, dimensions, members) plus an XML instance reporting on it.

    The returned model is everything the oracle needs; files_of() in this module serialises it.
    """
    nsch = draw(st.integers(1, max_schemas))
    uris = draw(st.lists(st.sampled_from(NAMESPACES), min_size=nsch, max_size=nsch, unique=True))
    prefixes = draw(st.lists(st.sampled_from(PREFIXES), min_size=nsch, max_size=nsch, unique=True))
    iprefixes = prefixes
    if reprefix and draw(st.integers(0, 3)) == 0:
        iprefixes = draw(st.lists(st.sampled_from(PREFIXES + ["q1", "q2"]), min_size=nsch, max_size=nsch, unique=True))
    schemas = []
    concepts, expdims, typdims, members = [], [], [], []
    for k in range(nsch):
        names = draw(distinct_names(2, 8))
        if k == 1 and draw(st.booleans()):  # the same local name in two namespaces
            names = list(dict.fromkeys([schemas[0]["elements"][0]["name"]] + names))
        els = []
        for i, n in enumerate(names):
            nid = f"{prefixes[k]}_{n}_{k}"
            roll = draw(st.integers(0, 9)) if (dims and not (i == 0)) else 0
            if roll <= 4:
                t = draw(st.sampled_from(NUMERIC_TYPES + INTEGER_TYPES + TEXT_TYPES + ["xbrli:booleanItemType"]))
                e = {"name": n, "id": nid, "type": t, "sg": "xbrli:item",
                     "periodType": draw(st.sampled_from(["instant", "duration"])), "nillable": "true"}
                concepts.append([k, i])
            elif roll <= 6:
                e = {"name": n, "id": nid, "type": "nonnum:domainItemType", "sg": "xbrli:item",
                     "periodType": "duration", "abstract": "true"}
                members.append([k, i])
            elif roll <= 8:
                e = {"name": n, "id": nid, "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem",
                     "periodType": "duration", "abstract": "true"}
                expdims.append([k, i])
            else:
                e = {"name": n, "id": nid, "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem",
                     "periodType": "duration", "abstract": "true", "typedDomainRef": f"#dom_{k}"}
                typdims.append([k, i])
            els.append(e)
        els.append({"name": f"domain{k}", "id": f"dom_{k}", "type": "xs:string"})
        schemas.append({"file": f"s{k}.xsd", "ns": uris[k], "prefix": prefixes[k], "elements": els})
    nctx = draw(st.integers(1, max_ctx))
    contexts = []
    for c in range(nctx):
        ds = []
        if dims:
            pool = [["explicit", *d] for d in expdims] * bool(members) + [["typed", *d] for d in typdims]
            if pool:
                for kind, k, i in draw(st.lists(st.sampled_from(pool), max_size=3, unique_by=lambda d: (d[1], d[2]))):
                    if kind == "explicit":
                        ds.append({"kind": kind, "dim": [k, i], "member": draw(st.sampled_from(members))})
                    else:
                        ds.append({"kind": kind, "dim": [k, i], "text": draw(plain_text1)})
        contexts.append({"id": f"c{c}", "scheme": draw(st.sampled_from(SCHEMES)),
                         "entity": draw(st.sampled_from(ENTITIES)), "period": draw(period()), "dims": ds})
    us = []
    if units:
        for u in range(draw(st.integers(1, 3))):
            num = [draw(st.sampled_from(MEASURES))]
            den = [draw(st.sampled_from(MEASURES))] if draw(st.integers(0, 2)) == 0 else []
            us.append({"id": draw(st.sampled_from(["usd", "u", "U_"])) + str(u), "num": num, "den": den})
    facts = []
    for j in range(draw(st.integers(0, max_facts))):
        k, i = draw(st.sampled_from(concepts))
        t = schemas[k]["elements"][i]["type"]
        numeric = t in NUMERIC_TYPES or t in INTEGER_TYPES
        f = {"concept": [k, i], "ctx": draw(st.integers(0, nctx - 1)),
             "unit": draw(st.integers(0, len(us) - 1)) if (us and numeric) else None,
             "id": None, "value": value_for(draw, t), "nil": False}
        if ids == "always" or (ids == "mixed" and draw(st.integers(0, 3)) > 0):
            f["id"] = draw(st.sampled_from(["f", "id-", "F."])) + str(j)
        if decimals and numeric and draw(st.booleans()):
            f[draw(st.sampled_from(["decimals", "precision"]))] = draw(st.sampled_from(["0", "-3", "2", "INF", "6", "12", "-12", "+3", "18"]))
        if draw(st.integers(0, 11)) == 0:
            f["nil"] = True
            f["value"] = ""
        facts.append(f)
    if big and facts and draw(st.integers(0, BIG)) == BIG:
        enlarge(contexts, facts, expdims * bool(members) and [["explicit", *d] for d in expdims], members,
                __import__("random").Random(draw(st.integers(0, 2**32))))
    return {"schemas": schemas, "iprefixes": iprefixes, "contexts": contexts, "units": us, "facts": facts,
            "default_xbrli": draw(st.booleans()),
            "layout": draw(st.permutations(["context", "unit", "fact"]))}


def dts_qname(m, ref, instance=True):
    k, i = ref
    p = m["iprefixes"][k] if instance else m["schemas"][k]["prefix"]
    return p + ":" + m["schemas"][k]["elements"][i]["name"]


def dts_clark(m, ref):
    k, i = ref
    return "{%s}%s" % (m["schemas"][k]["ns"], m["schemas"][k]["elements"][i]["name"])


SCHEMA_NS = {"nonnum": "http://www.xbrl.org/dtr/type/non-numeric"}


def instance_of(m):
    """The writer model (lib.xw) of the instance of a fact_filing model."""
    from lib import xw

    inst = {
        "schemaRefs": [s["file"] for s in m["schemas"]],
        "linkbaseRefs": m.get("linkbaseRefs", []),
        "nsmap": {**{p: s["ns"] for p, s in zip(m["iprefixes"], m["schemas"])}, **UNIT_NS},
        "contexts": [
            {**c, "dims": [
                {"kind": "explicit", "dim": dts_qname(m, d["dim"]), "value": dts_qname(m, d["member"])}
                if d["kind"] == "explicit" else
                {"kind": "typed", "dim": dts_qname(m, d["dim"]), "value": d["text"],
                 "domain": f'{m["iprefixes"][d["dim"][0]]}:domain{d["dim"][0]}'}
                for d in c["dims"]]}
            for c in m["contexts"]],
        "units": m["units"],
        "facts": [
            {**f, "concept": dts_qname(m, f["concept"]), "ctx": m["contexts"][f["ctx"]]["id"],
             "unit": None if f["unit"] is None else m["units"][f["unit"]]["id"]}
            for f in m["facts"]],
        "tuples": [[f'{m["iprefixes"][0]}:{t}', a, b] for t, a, b in m.get("tuples", [])],
        "default_xbrli": m.get("default_xbrli"),
        "layout": m.get("layout", ["context", "unit", "fact"]) + (["footnote"] if m.get("footnotes") else []),
        "footnotes": m.get("footnotes", []),
    }
    return inst


def files_of(m, instance_name="i.xml"):
    from lib import xw

    files = {s["file"]: xw.schema_xml(s, {**SCHEMA_NS, **m.get("schema_nsmap", {})}) for s in m["schemas"]}
    for lb in m.get("linkbases", []):
        files[lb["file"]] = xw.linkbase_xml(lb)
    files[instance_name] = xw.instance_xml(instance_of(m))
    return files


# ---------------------------------------------------------------- expected view

IUNIT_NS = {"iso4217": "http://www.xbrl.org/2003/iso4217", "xbrli": "http://www.xbrl.org/2003/instance", **UNIT_NS}


def measure_clark(q):
    p, l = q.split(":")
    return "{%s}%s" % (IUNIT_NS[p], l)


def expected_fact(m, f):
    c = m["contexts"][f["ctx"]]
    u = None if f["unit"] is None else m["units"][f["unit"]]
    return {
        "id": f["id"],
        "value": "" if f["nil"] else f["value"],
        "concept": dts_clark(m, f["concept"]),
        "period": c["period"],
        "entity": "{%s}%s" % (c["scheme"], c["entity"]),
        "unit": None if u is None else {"name": u["id"], "num": sorted(map(measure_clark, u["num"])),
                                        "den": sorted(map(measure_clark, u["den"]))},
        "dims": sorted(
            [d["kind"], dts_clark(m, d["dim"]), dts_clark(m, d["member"]) if d["kind"] == "explicit" else d["text"]]
            for d in c["dims"]),
    }


def weighted(*choices):
    """One of several (weight, strategy) (st.one_of takes a strategy that it is given twice only once)."""
    strategies = [s for w, s in choices for _ in range(w)]
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


def evenly(draw, xs):
    """One of xs, each about as often as any other (Hypothesis' own choices among many prefer a few)."""
    return xs[sum(draw(st.booleans()) << i for i in range(12)) % len(xs)]


NOSUCH = ["nosuch", "nosuch", "it's-nosuch", 'a-"nosuch"', "'nosuch'\"", "nosuch]", "[nosuch", "}nosuch{", "%snosuch", "nosuch\\", "(nosuch", "*nosuch", "@nosuch", "$nosuch",
          "nosuch|", "<nosuch>", "&nosuch;", "nosuch.", "../nosuch", "ns:nosuch", "nosuché"]


def nosuch(e, but=""):
    """A reference to nothing, one or the other depending on the element, without the characters in but."""
    some = [x for x in NOSUCH if not set(but) & set(x)]
    return some[zlib.crc32(etree.tostring(e)) % len(some)]
