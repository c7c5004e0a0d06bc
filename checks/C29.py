"""C29  Typed access to fact values agrees with the text."""
import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from lib import gen, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C29"
QUICK = 12000
THOROUGH = 200000
RULE = ("instances of up to 10 facts of any of the 43 item types of XBRL 2.1 and 30 of the data type registry, with valid and invalid values "
        "of every kind; non-trivial = a numeric and another fact")
MUST_HIT = ["integer", "decimal", "float", "boolean", "text", "invalid integer", "invalid number", "invalid boolean", "white space", "exponent",
            "infinite", "many digits", "sign", "leading zeros", "no integer part", "registry type", "1 or 0", "precision lost", "nil"]

X = "xbrli:"
DEC = ["decimal", "monetary", "shares", "pure"]
FLOAT = ["float", "double"]
INT = ["integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "nonNegativeInteger", "unsignedLong", "unsignedInt",
       "unsignedShort", "unsignedByte", "positiveInteger"]
TEXT = ["string", "hexBinary", "base64Binary", "anyURI", "QName", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay",
        "gMonth", "normalizedString", "token", "language", "Name", "NCName"]
DTR_NUM = ["percent", "perShare", "area", "volume", "mass", "energy", "power", "length", "memory", "ghgEmissions", "temperature", "pressure", "frequency",
           "speed", "voltage", "electricCurrent", "force", "flow", "massFlow"]
DTR_TEXT = ["textBlock", "escaped", "xmlNodes", "xml", "guidance", "noLangToken", "noLangString", "SQName", "gYearList"]
CATEGORY = {**{f"xbrli:{t}ItemType": "decimal" for t in DEC}, **{f"xbrli:{t}ItemType": "float" for t in FLOAT},
            **{f"xbrli:{t}ItemType": "integer" for t in INT}, **{f"xbrli:{t}ItemType": "text" for t in TEXT},
            "xbrli:booleanItemType": "boolean", **{f"num:{t}ItemType": "decimal" for t in DTR_NUM},
            **{f"nonnum:{t}ItemType": "text" for t in DTR_TEXT},
            "num:noDecimalsMonetaryItemType": "integer", "num:nonNegativeNoDecimalsMonetaryItemType": "integer"}
TYPES = sorted(CATEGORY)
NUMS = [t for t in TYPES if CATEGORY[t] != "text"]
NS = {"nonnum": "http://www.xbrl.org/dtr/type/non-numeric", "num": "http://www.xbrl.org/dtr/type/numeric"}

digits = st.text(alphabet="0123456789", min_size=1, max_size=20)
sign = st.sampled_from(["", "", "-", "+"])
integers = st.one_of(st.builds(lambda s, d: s + d, sign, digits), st.sampled_from(["0", "-0", "+0", "007", "9" * 40, "-" + "1" * 39, "9007199254740993", "1", "5"]))
decimals = st.one_of(integers, st.builds(lambda s, a, b: f"{s}{a}.{b}", sign, digits, digits),
                     st.builds(lambda s, b: f"{s}.{b}", sign, digits), st.builds(lambda s, a: f"{s}{a}.", sign, digits),
                     st.sampled_from(["0.1", "-0.0", "1.10", "0.30000000000000004", "123456789.123456789123456789"]))
floats = st.one_of(decimals, st.builds(lambda m, e, s, x: f"{m}{e}{s}{x}", decimals, st.sampled_from("eE"), sign, st.integers(0, 400)),
                   st.sampled_from(["INF", "-INF", "NaN", "1e-330", "4.9E-324", "1.7976931348623157E308"]))
booleans = st.sampled_from(["true", "false", "1", "0"])
no_number = st.sampled_from(["", "-", "+", ".", "1,000", "1 000", "--1", "1e", "e5", "0x1F", "ten", "1.2.3", "1-", "true", "$5", "5%", "(5)", "NIL", "1/2", "1.5x", "−5",
                             "INF.", "12e", "null", "1'000"])
no_boolean = st.sampled_from(["", "yes", "no", "2", "-1", "t", "f", "truefalse", "true false", "falsey", "01", "1.0", "on", "nil"])


@st.composite
def _fact(draw):
    t = draw(st.sampled_from(TYPES if draw(st.booleans()) else NUMS))
    cat = CATEGORY[t]
    source = {"integer": integers, "decimal": decimals, "float": floats, "boolean": booleans, "text": st.one_of(gen.xml_text, floats, booleans)}[cat]
    if draw(st.integers(0, 5)) == 0:
        source = st.one_of(no_number, no_boolean, gen.plain_text1, decimals, booleans)
    v = draw(source)
    if draw(st.integers(0, 4)) == 0:
        v = draw(st.sampled_from([" ", "\n", "\t ", "  \n"])) + v + draw(st.sampled_from(["", " ", "\n  "]))
    return {"type": t, "value": v, "nil": v == "" and draw(st.booleans())}


def strategy(tier):
    return st.lists(_fact(), min_size=1, max_size=20 if tier == "thorough" else 10)


WS = " \t\r\n"
INT_RE = re.compile(r"[+-]?[0-9]+\Z")
DEC_RE = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z")
FLT_RE = re.compile(r"([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+))([eE]([+-]?[0-9]+))?\Z")


def as_int(v):
    v = v.strip(WS)
    return int(Fraction(v)) if INT_RE.match(v) else None


def nearest(m, e):
    q = Fraction(m.rstrip(".") if m.rstrip(".")[-1:].isdigit() else m) * Fraction(10) ** e
    try:
        f = float(q)
    except OverflowError:
        f = math.inf if q > 0 else -math.inf
    return -0.0 if f == 0 and m.startswith("-") else f


def as_float(v):
    v = v.strip(WS)
    if v in ("INF", "-INF", "NaN"):
        return float(v)
    m = FLT_RE.match(v)
    return nearest(m.group(1), int(m.group(5) or 0)) if m else None


def as_bool(v):
    return {"true": True, "1": True, "false": False, "0": False}.get(v.strip(WS))


def same(a, b):
    return type(a) is type(b) and (a == b and str(a) == str(b) or a != a and b != b)


def expect_access(f, convert, deprecated, want, what, text):
    for g, how in ((lambda: convert(f), what), (deprecated, "the getter for " + what)):
        try:
            got = g()
        except ValueError:
            expect(want is None, lambda: f"{how} of the value {text!r} failed")
            continue
        expect(want is not None, lambda: f"{how} of the value {text!r} is {got!r}")
        expect(same(got, want), lambda: f"{how} of the value {text!r} is {got!r}, not {want!r}")


def undecided_bool(v):
    return v.strip().lower() in ("true", "false") and as_bool(v) is None


def check(m):
    out = set()
    types = sorted({f["type"] for f in m})
    schema = {"file": "s.xsd", "ns": "http://example.com/t", "prefix": "t",
              "elements": [{"name": "E%d" % i, "id": "t_E%d" % i, "type": t, "sg": "xbrli:item", "periodType": "instant", "nillable": "true"}
                           for i, t in enumerate(types)]}
    inst = {"schemaRefs": ["s.xsd"], "nsmap": {"t": "http://example.com/t"},
            "contexts": [{"id": "c", "scheme": "urn:s", "entity": "e", "period": ["instant", "2020-01-01"], "dims": []}],
            "units": [{"id": "u", "num": ["xbrli:pure"], "den": []}],
            "facts": [{"concept": "t:E%d" % types.index(f["type"]), "ctx": "c", "unit": "u" if CATEGORY[f["type"]] in ("integer", "decimal", "float") else None,
                       "id": f"f{j}", "value": f["value"], "nil": f["nil"]} for j, f in enumerate(m)]}
    filing = obs.open_files({"s.xsd": xw.schema_xml(schema, NS), "i.xml": xw.instance_xml(inst)}, "i.xml")
    obs.expect_no_errors(filing)
    facts = filing.get_all_facts()
    expect_eq([f.get_id() for f in facts], [f"f{j}" for j in range(len(m))], "the facts")
    for f, w in zip(facts, m):
        cat, v = CATEGORY[w["type"]], w["value"]
        with under_test("reading the value of a fact"):
            text = str(f)
            expect_eq(text, v, "str() of a fact")
            expect_eq(f.get_value_as_str(), v, "value as string")
            if v.strip() != v.strip(WS):
                continue  # white space that is none in XML
            i, d, b = as_int(v), as_float(v), as_bool(v)
            c = f.get_concept()
            expect_eq([c.is_numeric(), c.is_integer(), c.is_boolean(), c.is_textual()],
                      [cat in ("integer", "decimal", "float"), cat == "integer", cat == "boolean", cat in ("text", "boolean")],
                      f"kinds of the type {w['type']}")
            if i is not None or d is None:
                expect_access(f, int, f.get_value_as_int, i, "int()", v)  # "5.0" may or may not be an integer
            expect_access(f, float, f.get_value_as_float, d, "float()", v)
            if not undecided_bool(v):
                expect_access(f, bool, f.get_value_as_bool, b, "bool()", v)
            if cat == "text":
                expect_eq(f.get_value(), v, "value of a text")
            elif not (cat == "integer" and i is None and d is not None) and not (cat == "boolean" and undecided_bool(v)):
                want = {"integer": i, "decimal": d, "float": d, "boolean": b}[cat]
                try:
                    got = f.get_value()
                except ValueError:
                    expect(want is None, lambda: f"the value {v!r} of type {w['type']} could not be read")
                else:
                    expect(same(got, want), lambda: f"the value of {v!r} of type {w['type']} is {got!r}, not {want!r}")
        out.add(cat)
        core = v.strip(WS)
        if v != core and core:
            out.add("white space")
        if w["nil"]:
            out.add("nil")
        if w["type"].startswith("n"):
            out.add("registry type")
        if cat == "integer" and i is None:
            out.add("invalid integer")
        if cat in ("decimal", "float") and d is None:
            out.add("invalid number")
        if cat == "boolean":
            out.add("invalid boolean" if b is None else "1 or 0" if core in "10" else "true or false")
        if cat in ("decimal", "float", "integer") and d is not None:
            m_ = FLT_RE.match(core)
            if m_ is None or math.isinf(d):
                out.add("infinite")
            else:
                if m_.group(5):
                    out.add("exponent")
                if len(m_.group(2)) > 17:
                    out.add("many digits")
                if core[0] in "+-":
                    out.add("sign")
                if re.match(r"[+-]?0[0-9]", core):
                    out.add("leading zeros")
                if re.match(r"[+-]?\.", core):
                    out.add("no integer part")
                if cat == "integer" and i is not None and int(d) != i:
                    out.add("precision lost")
    return out


def nontrivial(m, labels):
    return bool({"integer", "decimal", "float"} & labels) and bool({"text", "boolean"} & labels)
