"""C16  Inline numeric facts have the value their format, scale and sign denote."""
import re
from decimal import Decimal

from hypothesis import strategies as st

from lib import ix, obs, xw
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C16"
QUICK = 6000
THOROUGH = 60000
RULE = ("inline pages with 1-8 ix:nonFraction facts; each takes a number of up to 12+6 digits and renders it in one "
        "of the registry's formats (TR1-TR5, any prefix, or none) with grouping separators, full-width digits, units, "
        "surrounding white space, a scale from -9 to 9 and a sign; some nest a second fact, some are nil; non-trivial "
        "= some fact has a format, and a scale other than 0, a separator, a sign or a nesting")
MUST_HIT = ["no format", "num-dot-decimal", "num-comma-decimal", "num-unit-decimal", "num-dot-decimal-apos",
            "num-comma-decimal-apos", "num-unit-decimal-apos", "legacy format", "fixed zero", "zero value",
            "negative scale", "negative", "nested", "nbsp", "full-width", "prefix other than ixt", "nil", "nil=1", "nil=false", "one decimal digit",
            "hidden", "white space around", "white space around a nested fact"]

SEPS = {  # separators TR allows in the integer part
    "num-dot-decimal": [",", " ", "\u00a0"],
    "num-comma-decimal": [".", " ", "\u00a0"],
    "num-dot-decimal-apos": [",", " ", "\u00a0", "'", "`", "\u00b4", "\u2019", "\u2032"],
    "num-comma-decimal-apos": [".", " ", "\u00a0", "'", "`", "\u00b4", "\u2019", "\u2032"],
    "num-unit-decimal": [",", ".", "\uff0c"],
    "num-unit-decimal-apos": [",", ".", "\uff0c", "'", "`", "\u00b4", "\u2019", "\u2032", "\uff07"],
    "numcommadecimal": [".", " ", "\u00a0"], "numdotdecimal": [",", " ", "\u00a0"], "numdotdecimalin": [",", " ", "\u00a0"],
    "numunitdecimal": [",", "."], "numunitdecimalin": [","],
    "numcomma": [], "numcommadot": [","], "numdotcomma": ["."], "numspacecomma": [" "], "numspacedot": [" "],
}
MARK = {"num-comma-decimal": ",", "num-comma-decimal-apos": ",", "numcommadecimal": ",", "numcomma": ",",
        "numdotcomma": ",", "numspacecomma": ","}
UNIT_FORMATS = {"num-unit-decimal", "num-unit-decimal-apos", "numunitdecimal", "numunitdecimalin"}
VERSIONS = {f: (4, 5) for f in ("num-dot-decimal", "num-comma-decimal", "num-dot-decimal-apos", "num-comma-decimal-apos",
                                "num-unit-decimal", "num-unit-decimal-apos", "fixed-zero")}
VERSIONS.update({f: (2, 3) for f in ("numcommadecimal", "numdotdecimal", "numunitdecimal", "zerodash")})
VERSIONS.update({f: (3,) for f in ("numdotdecimalin", "numunitdecimalin")})
VERSIONS.update({f: (1,) for f in ("numcomma", "numcommadot", "numdotcomma", "numspacecomma", "numspacedot", "numdash")})
ZERO_TEXTS = {"fixed-zero": ["-", "\u2013", "nil", "none", "0", "\u2014", "keine", ""],
              "zerodash": ["-", "\u2013", "\u2014", "\u2012"], "numdash": ["-"]}
UNIT_WORDS = [("\u5186", "\u92ad"), ("EUR ", " cent"), (" \u20ac ", "c"), ("$", ""), (" rupees ", " paise")]
FULL = str.maketrans("0123456789", "\uff10\uff11\uff12\uff13\uff14\uff15\uff16\uff17\uff18\uff19")


@st.composite
def number(draw):
    fmt = draw(st.sampled_from([None] + sorted(VERSIONS)))
    if fmt in ZERO_TEXTS:
        text = draw(st.sampled_from(ZERO_TEXTS[fmt]))
        if text == "":
            text = " "
        return {"fmt": fmt, "tr": draw(st.sampled_from(VERSIONS[fmt])), "text": text, "num": "0"}
    whole = draw(st.one_of(st.sampled_from(["0", "1", "000", "10", "100", "1234567"]),
                           st.integers(0, 10**12).map(str), st.integers(0, 2000).map(str)))
    nfrac = draw(st.integers(0, 6))
    frac = draw(st.text(alphabet="0123456789", min_size=nfrac, max_size=nfrac))
    if draw(st.integers(0, 7)) == 0:
        frac = "0" * len(frac)
    f = {"fmt": fmt, "whole": whole, "frac": frac}
    if fmt is None:
        f["text"] = whole + ("." + frac if frac else "")
        f["num"] = f["text"]
        return f
    f["tr"] = draw(st.sampled_from(VERSIONS[fmt]))
    out = whole
    if SEPS[fmt] and draw(st.booleans()):
        sep = draw(st.sampled_from(SEPS[fmt]))
        groups, w = [], whole
        first = True
        indian = fmt.endswith("in") or draw(st.integers(0, 4)) == 0 and not re.match(r"num[a-z]", fmt)
        while w:
            n = 3 if first or not indian else 2
            groups.insert(0, w[-n:])
            w = w[:-n]
            first = False
        out = sep.join(groups)
    if fmt in UNIT_FORMATS:
        frac = frac[:2] or draw(st.sampled_from(["0", "00", "05", "5", "50"]))
        f["frac"] = frac
        a, b = draw(st.sampled_from(UNIT_WORDS))
        value = Decimal(whole) + Decimal(int(frac)) / 100
        text = out + a + frac + b
        f["num"] = format(value, "f")
        if not fmt.startswith("numunit") and draw(st.integers(0, 2)) == 0:
            text = text.translate(FULL)
        f["text"] = text
        return f
    if frac:
        sp = frac
        if fmt in ("num-dot-decimal", "num-comma-decimal", "num-dot-decimal-apos", "num-comma-decimal-apos") and len(frac) > 3 \
                and draw(st.integers(0, 3)) == 0:
            sp = frac[:3] + draw(st.sampled_from([" ", "\u00a0"])) + frac[3:]
        out += MARK.get(fmt, ".") + sp
        if whole == "0" and fmt.startswith("num-") and draw(st.booleans()):
            out = out[1:]
    f["text"] = out
    f["num"] = whole + ("." + frac if frac else "")
    return f


@st.composite
def strategy_(draw, tier):
    facts = []
    for i in range(draw(st.integers(1, 8))):
        f = draw(number())
        f["scale"] = draw(st.sampled_from([None, None, "0", "3", "6", "-2", "1", "-1", "9", "-9", "-3", "2"]))
        f["sign"] = draw(st.sampled_from([None, None, "-"]))
        f["ws"] = draw(st.sampled_from(["", "", "", " ", "\n  ", "\t"]))
        f["lay"] = draw(ix.layout_of_fact)
        f["nil"] = draw(st.integers(0, 15)) == 0
        f["inner"] = None
        if not f["nil"] and draw(st.integers(0, 5)) == 0:
            f["inner"] = draw(st.sampled_from(["same sign", "other sign"]))
            f["around"] = draw(st.sampled_from([["", ""], ["", ""], [" ", " "], ["\n  ", "\n"], ["", " "], ["\t", ""]]))
        f["acc"] = draw(st.sampled_from([None, ["decimals", "2"], ["decimals", "-3"], ["decimals", "INF"], ["precision", "4"]]))
        if f["nil"]:
            f["xsinil"] = draw(st.sampled_from(["true", "true", "1"]))
        elif f["acc"] is None:
            f["xsinil"] = draw(st.sampled_from([None, None, "false", "0"]))
        facts.append(f)
    return {"facts": facts, "prefix": draw(st.sampled_from(["ixt", "ixt", "tr", "ixt4", "x.y", "ix-t"])),
            "ixp": draw(st.sampled_from(["ix", "ix", "i"]))}


def strategy(tier):
    return strategy_(tier)


def fact_node(f, i, prefix):
    def a(k, sign):
        d = {"name": f"t:C{k}", "contextRef": "c0", "unitRef": "usd", "id": f"f{i}" + ("n" if k else "")}
        if f["fmt"]:
            d["format"] = f"{prefix}{f['tr']}:{f['fmt']}" if f["tr"] > 1 else f"{prefix}:{f['fmt']}"
        if f["scale"] is not None:
            d["scale"] = f["scale"]
        if sign:
            d["sign"] = sign
        if f["acc"] and not f["nil"]:
            d[f["acc"][0]] = f["acc"][1]
        elif f.get("xsinil") and not f["nil"] and not k:
            d["xsi:nil"] = f["xsinil"]
        return d
    if f["nil"]:
        d = a(0, None)
        for k in ("format", "scale"):
            d.pop(k, None)
        d["xsi:nil"] = f.get("xsinil", "true")
        return {"ix": "nonFraction", "a": d, "c": []}
    content = [f["ws"] + f["text"] + f["ws"]]
    if f["inner"]:
        sign = f["sign"] if f["inner"] == "same sign" else ("-" if not f["sign"] else None)
        before, after = f.get("around", ["", ""])
        content = [before] * bool(before) + [{"ix": "nonFraction", "a": a(1, sign), "c": content}] + [after] * bool(after)
    return {"ix": "nonFraction", "a": a(0, f["sign"]), "c": content}


def ns_decls(prefix, versions):
    return {(f"{prefix}{v}" if v > 1 else prefix): ix.TR[v] for v in versions}


def expected(f, inner=False):
    sign = f["sign"]
    if inner and f["inner"] == "other sign":
        sign = "-" if not sign else None
    v = Decimal(f["num"]).scaleb(int(f["scale"] or "0"))
    return -v if sign else v


DECIMAL = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)")


def check(m):
    tax = ix.simple_taxonomy(["xbrli:monetaryItemType"] * 2)
    nodes = [fact_node(f, i, m["prefix"]) for i, f in enumerate(m["facts"])]
    used = sorted({f["tr"] for f in m["facts"] if f["fmt"]})
    page = {"ns": {"t": tax["ns"], **ns_decls(m["prefix"], used)}, "refs": [["schema", "t.xsd"]],
            "contexts": ix.CTX, "units": ix.UNIT, "ixp": m["ixp"],
            "hidden": [n for n, f in zip(nodes, m["facts"]) if ix.is_hidden(f["lay"])],
            "body": [ix.place(n, f["lay"]) for n, f in zip(nodes, m["facts"]) if not ix.is_hidden(f["lay"])]}
    filing = obs.open_files({"t.xsd": xw.schema_xml(tax), "p.xhtml": ix.page_xml(page)}, "p.xhtml",
                            "opening a well-formed inline filing")
    obs.expect_no_errors(filing, "a well-formed inline filing")
    labels = set()
    want = {}
    for i, f in enumerate(m["facts"]):
        want[f"f{i}"] = None if f["nil"] else expected(f)
        if f["inner"]:
            want[f"f{i}n"] = expected(f, True)
    with under_test("reading the facts"):
        facts = filing.get_all_facts()
        got = {x.get_id(): str(x) for x in facts}
        acc = {x.get_id(): (x.get_decimals(), x.get_precision()) for x in facts}
        floats = {x.get_id(): float(x) for x in facts if want.get(x.get_id()) is not None}
    expect_eq(len(facts), len(want), "number of facts")
    expect_eq(sorted(got), sorted(want), "the ids of the facts")
    for k, w in want.items():
        f = m["facts"][int(k.strip("fn"))]
        what = (f"fact {k}: text {f['text']!r} format {f['fmt']} scale {f['scale']} sign {f['sign']} "
                f"nesting {f['inner']}")
        if w is None:
            expect_eq(got[k], "", what + " is nil")
            continue
        if not DECIMAL.fullmatch(got[k]):
            raise Violation(f"{what}: the value {got[k]!r} is not a number (expected {w})")
        expect_eq(Decimal(got[k]), w, what)
        expect(abs(floats[k] - float(w)) <= 1e-9 * abs(float(w)), lambda: f"{what}: float(fact) is {floats[k]}, not {float(w)}")
        wacc = [None, None]
        if f["acc"]:
            wacc[f["acc"][0] == "precision"] = float(f["acc"][1].lower())
        expect_eq(list(acc[k]), wacc, f"decimals and precision of fact {k}")
    for f in m["facts"]:
        if f["nil"]:
            labels.add("nil")
            if f.get("xsinil") == "1":
                labels.add("nil=1")
            continue
        if not k.endswith("n") and f.get("xsinil"):
            labels.add("nil=false")
        labels.add(f["fmt"] or "no format")
        if f["fmt"] in ZERO_TEXTS:
            labels.add("fixed zero")
        elif Decimal(f["num"]) == 0:
            labels.add("zero value")
        if f["fmt"] and f["tr"] < 4:
            labels.add("legacy format")
        if f["scale"] and f["scale"][0] == "-":
            labels.add("negative scale")
        if f["sign"]:
            labels.add("negative")
        if f["inner"]:
            labels.add("nested")
            if any(f.get("around", ())):
                labels.add("white space around a nested fact")
        if "\u00a0" in f["text"]:
            labels.add("nbsp")
        if set(f["text"]) & set("\uff10\uff11\uff12\uff13\uff14\uff15\uff16\uff17\uff18\uff19"):
            labels.add("full-width")
        if f["fmt"] in UNIT_FORMATS and len(f["frac"]) == 1:
            labels.add("one decimal digit")
        if f["fmt"] and not m["prefix"].startswith("ixt"):
            labels.add("prefix other than ixt")
        if ix.is_hidden(f["lay"]):
            labels.add("hidden")
        if f["ws"]:
            labels.add("white space around")
        if f["fmt"] and f.get("whole") and f["text"] not in (f["whole"], f["num"]):
            labels.add("separators")
    return labels


def nontrivial(m, labels):
    return any(f["fmt"] and not f["nil"] and ((f["scale"] or "0") != "0" or f["sign"] or f["inner"]
                                              or (f.get("whole") and f["text"] != f["num"])) for f in m["facts"])
