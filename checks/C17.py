"""C17  Inline dates, booleans and fixed values have the value their format denotes."""
import datetime

from hypothesis import strategies as st

from lib import ix, ixdates as D, obs, xw
from lib.harness import expect, expect_eq, under_test

ID = "C17"
QUICK = 6000
THOROUGH = 60000
RULE = ("inline pages with 1-10 ix:nonNumeric facts; each takes a date (1900-2099) and writes it in one of the ~110 date "
        "formats of TR1-TR5 (22 languages with full and short month names in every letter case, Roman months, Japanese "
        "eras, the Indian national calendar, full-width and Devanagari digits, 1-, 2- and 4-digit years, many "
        "separators), or is a fixed true/false/empty; some texts denote no date; non-trivial = at least 2 facts, "
        "one of which has a month name, a calendar other than the Gregorian one, or other digits")
MUST_HIT = [f"lang {x}" for x in D.LANGS] + ["numeric", "roman", "era", "saka", "legacy", "fixed", "other digits", "short year",
                                           "unreadable", "impossible day", "prefix other than ixt", "recurring", "month and year", "full date",
                                           "markup inside", "upper case"]
SEP1 = [" ", ". ", "-", "/", ".", " - "]
FIXED = [("fixed-true", (4, 5), "true"), ("fixed-false", (4, 5), "false"), ("fixed-empty", (4, 5), ""),
         ("booleantrue", (2, 3), "true"), ("booleanfalse", (2, 3), "false"), ("nocontent", (2, 3), "")]


def month_text(draw, lang, parts, m):
    names = [D.MONTHS[lang][m - 1]] + D.MORE.get(lang, {}).get(m, [])
    if "d" not in parts:
        names = names + D.MONTH_YEAR_ONLY.get(lang, {}).get(m, [])
    name = draw(st.sampled_from(names))
    forms = ["cap", "lower", "upper"]
    if lang == "en":
        forms = ["cap", "upper"]
    elif lang in ("el", "hi"):
        forms = ["cap", "lower"]
    form = draw(st.sampled_from(forms))
    if lang != "hi":
        name = name[0].upper() + name[1:] if form == "cap" else name.upper() if form == "upper" else name
    return name, form == "upper" and lang != "hi"


def year_text(draw, y, four=False):
    if not four and 2000 <= y <= 2099 and draw(st.integers(0, 3)) == 0:
        return str(y % 100) if y % 100 >= 10 or draw(st.booleans()) else f"{y % 100:02d}"
    return str(y)


@st.composite
def a_date(draw):
    fmt = draw(st.sampled_from(D.MODERN + sorted(D.LEGACY)))
    legacy = fmt in D.LEGACY
    name, versions = (fmt, D.LEGACY[fmt][0]) if legacy else ("date-" + fmt, (4, 5))
    shape = D.LEGACY[fmt][1] if legacy else fmt
    tr = draw(st.sampled_from(versions))
    date = draw(st.one_of(st.dates(datetime.date(1900, 1, 1), datetime.date(2099, 12, 31)),
                          st.dates(datetime.date(2000, 1, 1), datetime.date(2030, 12, 31)),
                          st.sampled_from([datetime.date(2024, 2, 29), datetime.date(2023, 12, 31), datetime.date(2024, 3, 21),
                                           datetime.date(2000, 1, 1), datetime.date(2023, 3, 22), datetime.date(1999, 12, 31)])))
    y, m, d = date.year, date.month, date.day
    impossible = draw(st.integers(0, 24)) == 0 and not shape.startswith("ind")
    if impossible:  # a day that the month does not have
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        d = draw(st.sampled_from([31, 31, 32, 99] if m in (4, 6, 9, 11) else [30, 31] + [29] * (not leap and "year" in shape) if m == 2 else [32, 32, 40]))
    out = {"name": name, "tr": tr, "kind": None, "tags": []}
    tags = out["tags"]
    if legacy:
        tags.append("legacy")
    if shape.startswith("jpn"):
        era = draw(st.sampled_from([e for e in D.ERAS if e[2] <= (y, m, date.day) <= e[3]]))
        n = y - era[2][0] + 1
        ny = "元" if n == 1 and draw(st.booleans()) else str(n)
        sp = draw(st.sampled_from(["", "", " ", "\u00a0"]))
        parts = "yMd" if shape.endswith("day") else "yM"
        text = draw(st.sampled_from(era[:2])) + sp + ny + sp + "年" + sp + str(m) + sp + "月"
        if "d" in parts:
            text += sp + draw(st.sampled_from([str(d), f"{d:02d}"])) + sp + "日"
        if draw(st.booleans()):
            text = text.translate(D.FULL)
            tags.append("other digits")
        out.update(text=text, want=D.iso(parts, y, m, d))
        tags.append("era")
        return out
    if shape.startswith("ind"):
        sy, sm, sd = D.to_saka(y, m, d)
        nm = draw(st.sampled_from(D.SAKA_NAMES[sm - 1]))
        ys = str(sy)
        if y >= 2000 and draw(st.integers(0, 2)) == 0:
            ys = f"{sy % 100:02d}"
            tags.append("short year")
        text = draw(st.sampled_from([f"{sd} {nm} {ys}", f"{sd:02d} {nm}, {ys}", f"{sd}-{nm}-{ys}", f"{sd}/{nm}/{ys}"]))
        if draw(st.booleans()):
            text = text.translate(D.HINDI)
            tags.append("other digits")
        out.update(text=text, want=D.iso("ymd", y, m, d))
        tags.append("saka")
        return out
    if shape == "datedaymonthyearin":
        shape = draw(st.sampled_from(["day-month-year", "day-monthname-year-hi"]))
    if shape in D.NUMERIC:
        parts = D.NUMERIC[shape]
        tags.append("numeric")
        sep = draw(st.sampled_from({"datedoteu": ["."], "datedotus": ["."], "dateslasheu": ["/"], "dateslashus": ["/"],
                                    "dateslashdaymontheu": ["/"], "dateslashmonthdayus": ["/"]}.get(fmt, SEP1)))
        pad = draw(st.booleans()) or tr == 1
        ys = year_text(draw, y, four=fmt.endswith("cjk"))
        if "y" in parts and ys != str(y):
            tags.append("short year")
        txt = {"d": f"{d:02d}" if pad else str(d), "m": f"{m:02d}" if pad else str(m), "y": ys}
        if fmt.endswith("cjk") or shape in ("year-month-day", "year-month") and draw(st.integers(0, 2)) == 0:
            unit = dict(y="年", m="月", d="日")
            text = "".join(txt[p] + unit[p] for p in parts)
        else:
            text = sep.join(txt[p] for p in parts)
        if shape in ("year-month-day", "year-month") and draw(st.integers(0, 2)) == 0:
            text = text.translate(D.FULL)
            tags.append("other digits")
        elif shape in ("day-month-year", "month-year") and tr >= 3 and draw(st.integers(0, 2)) == 0:
            text = text.translate(D.HINDI)
            tags.append("other digits")
        out.update(text=text, want=D.iso(parts, y, m, d))
    else:
        if shape in D.ROMAN:
            parts = D.ROMAN[shape]
            mt = D.ROMANS[m - 1]
            if draw(st.booleans()):
                mt = mt.lower()
            tags.append("roman")
        else:
            lang, parts = D.SHAPES[shape]
            if tr == 1:
                full = D.MONTHS[lang][m - 1]
                mt, up = (full if "long" in fmt else full[:3]).capitalize(), False
            else:
                mt, up = month_text(draw, lang, parts, m)
            tags.append("lang " + lang)
            if up:
                tags.append("upper case")
        ys = year_text(draw, y, four=tr == 1 or shape.endswith("hi"))
        if "y" in parts and ys != str(y):
            tags.append("short year")
        pad = draw(st.booleans()) or tr == 1
        txt = {"d": f"{d:02d}" if pad else str(d), "M": mt, "R": mt, "y": ys}
        sep = draw(st.sampled_from([" ", "-", "/", ". ", " \u00a0"])) if tr > 1 else " "
        pieces = [txt[p] for p in parts]
        if shape.endswith("-en") and tr > 1 and draw(st.integers(0, 2)) == 0:
            pieces = [x + {1: "st", 2: "nd", 3: "rd"}.get(d if d < 20 else d % 10, "th") if p == "d" else x for p, x in zip(parts, pieces)]
            sep = " "
        if (shape.endswith("-es") or shape.endswith("-pt")) and draw(st.booleans()):
            sep = " de "
        text = sep.join(pieces)
        if parts == "Mdy" and draw(st.booleans()):
            text = f"{pieces[0]} {pieces[1]}, {pieces[2]}"
        if shape.endswith("hi") and draw(st.booleans()):
            text = text.translate(D.HINDI)
            tags.append("other digits")
        out.update(text=text, want=D.iso(parts, y, m, d))
    return out


BAD = [("date-day-month", 4, "31.02"), ("date-day-month", 4, "12.13"), ("date-day-month-year", 4, "29.02.2023"),
       ("date-day-month-year", 4, "00.01.2023"), ("date-month-day-year", 4, "13/01/2023"), ("date-day-monthname-en", 4, "5 Foo"),
       ("date-day-monthname-year-en", 4, "31 April 2023"), ("date-day-monthname-year-de", 5, "5 xyz 2023"), ("date-year-month", 4, "2023-13"),
       ("date-day-monthroman-year", 4, "5 IIII 2023"), ("date-month-year", 5, "0/2023"), ("date-day-monthname-year-fr", 4, "mars"),
       ("datedaymonthyear", 3, "yesterday"), ("datedaymonthyearin", 3, "99 99 2023"), ("calindaymonthyear", 3, "today"),
       ("date-no-such-format", 4, "1.1.2023"), ("date-jpn-era-year-month", 4, "2023年1月")]


@st.composite
def strategy_(draw, tier):
    facts = []
    for i in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 11))
        if k == 0:
            n, vs, want = draw(st.sampled_from(FIXED))
            f = {"name": n, "tr": draw(st.sampled_from(vs)), "want": want, "tags": ["fixed"],
                 "text": draw(st.sampled_from(["-", "yes", "\u2713", "no & none", "x"]))}
        elif k == 1:
            n, v, t = draw(st.sampled_from(BAD))
            f = {"name": n, "tr": v, "want": None, "tags": ["unreadable"], "text": t}
        else:
            f = draw(a_date())
            if f["want"] and D.impossible(f["want"]):
                f["want"] = None
                f["tags"].append("impossible day")
        f["ws"] = draw(st.sampled_from(["", "", "", " ", "\n "]))
        f["markup"] = draw(st.sampled_from([None, None, None, "span", "b"]))
        f["lay"] = draw(ix.layout_of_fact)
        facts.append(f)
    return {"facts": facts, "prefix": draw(st.sampled_from(["ixt", "ixt", "tr", "ixt4"])), "ixp": draw(st.sampled_from(["ix", "ix", "inl"]))}


def strategy(tier):
    return strategy_(tier)


def check(m):
    tax = ix.simple_taxonomy(["xbrli:stringItemType"])

    def pfx(tr):
        return m["prefix"] + (str(tr) if tr != 4 else "")
    nodes = []
    for i, f in enumerate(m["facts"]):
        c = [f["ws"] + f["text"] + f["ws"]]
        if f["markup"]:
            c = [{"el": f["markup"], "c": c}]
        nodes.append({"ix": "nonNumeric", "c": c, "a": {"name": "t:C0", "contextRef": "c0", "id": f"f{i}",
                                                        "format": f"{pfx(f['tr'])}:{f['name']}"}})
    used = sorted({f["tr"] for f in m["facts"]})
    page = {"ns": {"t": tax["ns"], **{pfx(v): ix.TR[v] for v in used}}, "refs": [["schema", "t.xsd"]], "contexts": ix.CTX, "ixp": m["ixp"],
            "hidden": [n for n, f in zip(nodes, m["facts"]) if ix.is_hidden(f["lay"])],
            "body": [ix.place(n, f["lay"]) for n, f in zip(nodes, m["facts"]) if not ix.is_hidden(f["lay"])]}
    filing = obs.open_files({"t.xsd": xw.schema_xml(tax), "p.xhtml": ix.page_xml(page)}, "p.xhtml", "opening an inline filing")
    labels = set()
    with under_test("reading the facts"):
        facts = filing.get_all_facts()
        got = {x.get_id(): str(x) for x in facts}
    expect_eq(len(facts), len(m["facts"]), "number of facts")
    expect_eq(sorted(got), sorted(f"f{i}" for i in range(len(m["facts"]))), "the ids of the facts")
    for i, f in enumerate(m["facts"]):
        if f["want"] is not None:
            expect_eq(got[f"f{i}"], f["want"], f"the value of {f['text']!r} in format {f['name']} (TR{f['tr']})")
    bad = sum(f["want"] is None for f in m["facts"])
    if bad:
        expect(len(obs.errors_of(filing)) >= bad,
               lambda: f"{bad} texts denote no date, but only {len(obs.errors_of(filing))} errors were reported: "
                       f"{[f['text'] for f in m['facts'] if f['want'] is None]}")
    else:
        obs.expect_no_errors(filing, "a well-formed inline filing")
    for f in m["facts"]:
        labels.update(f["tags"])
        if f["markup"]:
            labels.add("markup inside")
        if f["want"] and "fixed" not in f["tags"]:
            labels.add("recurring" if f["want"].startswith("--") else "full date" if len(f["want"]) == 10 else "month and year")
    if not m["prefix"].startswith("ixt"):
        labels.add("prefix other than ixt")
    return labels


def nontrivial(m, labels):
    return len(m["facts"]) >= 2 and any(x.startswith("lang ") or x in ("era", "saka", "roman", "other digits") for x in labels)
