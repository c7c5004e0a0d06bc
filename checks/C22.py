"""C22  Every error says what is wrong and where, and the error getters agree."""
from hypothesis import strategies as st
from lxml import etree

from lib import gen, obs, xw
from lib.harness import expect, expect_eq, under_test
from checks import C21, C32

from brel.errors.area import Area
from brel.errors.severity import Severity

ID = "C22"
QUICK = 6000
THOROUGH = 40000
RULE = ("XML filings and inline pages (the generators of C21 and C32) with one defect of some 110 kinds, whose error must have the code, the "
        "place and the names of that defect, or with 1-3 defects, for the getters; non-trivial = at least one error was reported")


def strategy(tier):
    one = st.booleans()
    return st.one_of(st.tuples(st.just("xml"), C21.strategy(tier), one), st.tuples(st.just("inline"), C32.strategy(tier), one)).map(
        lambda t: {"form": t[0], "m": {**t[1], "defects": t[1]["defects"][:1]} if t[2] else t[1]})


# ------------------------------------------------------------------ XML: code, place (from the damaged part), what the message names

EXP, TYP = ".//d:explicitMember", ".//d:typedMember"
NAME = lambda e: [e.get("name")]  # noqa: E731
XML = {
    "fact: unknown name": ("E-INX-100", "", ["NoSuchConcept"]),
    "fact: unknown namespace": ("E-INX-100", "", ["X"]),
    "fact: unknown context": ("E-INX-101", "", ["nosuch"]),
    "fact: unknown unit": ("E-INX-102", "", ["nosuch"]),
    "fact: bad decimals": ("W-ING-018", "", ["two"]),
    "fact: bad precision": ("W-ING-017", "", ["1.5x"]),
    "context: no period": ("E-ING-000", "", []),
    "context: no entity": ("E-ING-001", "", []),
    "context: no identifier": ("E-ING-007", "x:entity", []),
    "context: no scheme": ("E-ING-008", "x:entity", []),
    "context: no identifier text": ("E-ING-009", "x:entity/x:identifier", []),
    "context: no id": ("E-INX-101", None, []),
    "context: empty period": ("E-ING-004", "x:period", []),
    "context: bad instant": ("E-ING-003", ".//x:instant", ["2024-13-01"]),
    "context: empty instant": ("E-ING-003", ".//x:instant", []),
    "context: bad start": ("E-ING-003", ".//x:startDate", ["yesterday"]),
    "context: no start": ("E-ING-004", "x:period", []),
    "context: no end": ("E-ING-005", "x:period", []),
    "context: start after end": ("E-ING-006", ".//x:startDate", ["2999-01-01"]),
    "context: unknown dimension": ("E-ING-010", EXP, ["NoSuchAxis"]),
    "context: no dimension attribute": ("E-ING-010", EXP, []),
    "context: unknown member": ("E-ING-012", EXP, ["NoSuchMember"]),
    "context: no member": ("E-ING-011", EXP, []),
    "context: unknown typed dimension": ("E-ING-013", TYP, ["NoSuchAxis"]),
    "context: no typed dimension attribute": ("E-ING-013", TYP, []),
    "context: no typed value": ("E-ING-015", TYP, []),
    "context: empty typed value": ("E-ING-016", TYP, []),
    "context: strange segment": ("E-ING-002", ".//{http://nowhere.example.com}seg", ["seg"]),
    "unit: empty": ("E-INX-001", "", lambda e: [e.get("id")]),
    "unit: no id": ("E-INX-102", None, []),
    "unit: empty measure": ("E-INX-006", ".//x:measure", []),
    "unit: no denominator": ("E-INX-002", None, lambda e: [e.get("id")]),
    "unit: measure of unknown prefix": ("E-MSC-000", ".//x:measure", ["nosuch"]),
    "unit: denominator twice": ("E-INX-002", "", lambda e: [e.get("id"), "3"]),
    "unit: no numerator": ("E-INX-004", "", ["unitDenominator"]),
    "unit: strange part": ("E-INX-003", "", ["part"]),
    "unit: strange child": ("E-INX-001", "", lambda e: [e.get("id"), "2"]),
    "element: no period type": ("E-SCH-200", "", NAME),
    "element: bad period type": ("E-SCH-200", "", lambda e: [e.get("name"), "forever"]),
    "element: bad balance": ("E-SCH-201", "", lambda e: [e.get("name"), "both"]),
    "element: bad nillable": ("E-SCH-202", "", lambda e: [e.get("name"), "maybe"]),
    "element: no type": ("E-SCH-203", "", NAME),
    "element: unknown typed domain": ("E-SCH-100", "", ["nosuch"]),
    "role type: no URI": ("E-SCH-003", "", []),
    "link: arc from nowhere": ("E-LNK-403", "", ["nosuch"]),
    "link: arc to nowhere": ("E-LNK-403", "", ["nosuch"]),
    "link: arc without from": ("E-LNK-302", "", ["from"]),
    "link: arc without to": ("E-LNK-302", "", ["to"]),
    "link: arc without arc role": ("E-LNK-302", "", ["arcrole"]),
    "link: bad order": ("E-LNK-405", "", ["first", "order"]),
    "link: bad weight": ("E-LNK-405", "", ["heavy", "weight"]),
    "link: locator to nothing": ("E-LNK-300", "", ["nosuch"]),
    "link: locator without href": ("E-LNK-302", "", ["href"]),
    "link: locator without label": ("E-LNK-302", "", ["label"]),
    "link: locator to a role type": ("E-LNK-300", "", ["A"]),
    "link: locator to a fact": ("E-LNK-303", "", []),
    "link: abstract in a calculation": ("E-LNK-300", "", ["an_abstract"]),
    "link: resource without label": ("E-LNK-302", "", ["label"]),
    "link: no role": ("E-LNK-402", "", []),
    "link: duplicate arc": ("W-LNK-401", "", []),
    "link: arcs in a circle": ("W-LNK-40", "", []),
    "link: strange resource": ("E-LNK-200", "", ["remark"]),
    "catalog: not XML": ("E-TXP-000", None, []),
    "catalog: other root": ("E-TXP-000", "", []),
    "catalog: no prefix": ("E-TXP-001", "", []),
    "catalog: no start": ("E-TXP-001", "", []),
    "catalog: same start twice": ("E-TXP-002", None, ["http://nowhere.example.com/a/"]),
    "document: missing": ("E-MSC-101", None, ["nosuch.xml"]),
    "document: not XML": ("E-MSC-102", None, ["broken.xml"]),
    "document: other format": ("W-MSC-103", None, ["other.pdf"]),
}
# what the loss of a context, unit, concept or resource leads to elsewhere
FOLLOWS = {"E-INX-100", "E-INX-101", "E-INX-102", "E-LNK-300", "E-LNK-403", "E-INI-501", "E-INI-502", "E-INI-504", "E-INI-542", "E-INI-563", "E-INI-564",
           "W-INI-544", "W-INI-565", "E-ING-010", "E-ING-012", "E-ING-013", "E-LNK-404"}
ALSO = {"header: none": {"E-INI-300"}, "relationship: source is a footnote": {"E-INI-562"}, "number: nil in child": {"E-INI-508"},
        "date: no such month": {"E-INI-604", "E-INI-606"}, "role reference: bad link type": {"E-LNK-402"}}


def damaged(case):
    """(files, entry, what was done, the expected [code, element path, names])"""
    m = case["m"]
    if case["form"] == "inline":
        doc, done = C32.damaged(m)
        want = []
        for code, e, names in doc.expected:
            want.append([code, None if e is None else path_of(e), [x for x in names if x is not None]])
        return doc.files(), "p.xhtml", done, want
    doc, done, want = C21.Doc(C21._files(m)), [], []
    for kind, n in m["defects"]:
        try:
            ok = C21.KINDS[kind](doc, n)
        except (KeyError, AttributeError, IndexError, TypeError):
            ok = False
        if ok:
            done.append(kind)
            if kind == "link: no language":
                label = etree.QName(doc.at).localname == "label"
                code, path, names = ("E-LAB-001" if label else "E-FOO-001", "", [])
            else:
                code, path, names = XML[kind]
            e = None
            if path is not None:
                e = doc.at if path == "" else doc.at.find(path, {"x": xw.XBRLI, "d": xw.XBRLDI})
            if kind == "element: unknown typed domain" or (kind.startswith("element: ") and code != "E-SCH-100"):
                e = doc.at
            want.append([code, None if e is None else path_of(e), names(doc.at) if callable(names) else names])
    return doc.files(), C21.entry_of(m), done, want


def path_of(e):
    return e.getroottree().getpath(e)


def check(case):
    labels = set()
    files, entry, done, want = damaged(case)
    filing = obs.open_files(files, entry, f"opening the filing with the defects {done}")
    with under_test("reading the errors"):
        errors = list(filing.get_all_errors())
        expect_eq(filing.has_any_errors(), len(errors) > 0, "has_any_errors")
        for s in Severity:
            expect_eq([id(e) for e in filing.get_errors_by_severity(s)], [id(e) for e in errors if e.get_severity() == s],
                      f"get_errors_by_severity({s}): the errors of that severity, in the order of get_all_errors")
        for name, s in (("get_errors", Severity.ERROR), ("get_warnings", Severity.WARNING), ("get_infos", Severity.INFO)):
            expect_eq([id(e) for e in getattr(filing, name)()], [id(e) for e in errors if e.get_severity() == s], f"{name}: the errors of severity {s}")
        for a in Area:
            expect_eq([id(e) for e in filing.get_errors_by_area(a)], [id(e) for e in errors if e.get_area() == a],
                      f"get_errors_by_area({a}): the errors of that area, in the order of get_all_errors")
        for e in errors:
            x = e.get_xbrl_error_code()
            code = f"{e.get_severity().value}-{e.get_area().value}-{e.get_numeric_code()}" + (f" [{x.clark_notation()}]" if x else "")
            expect_eq(e.get_full_error_code(), code, "the full code of an error: severity, area and number")
            expect_eq(str(e), f"{code}: {e.get_message()}", "the text of an error: its code and its message")
            expect(e.get_message().strip() != "", "an error has no message")
            labels.add("severity " + e.get_severity().value)
            labels.add("area " + e.get_area().value)
    if not done:
        expect_eq([str(e) for e in errors], [], "the errors of a filing without defects")
        labels.add("no defect")
        return labels
    got = [(e.get_full_error_code(), None if e.get_context() is None else path_of(e.get_context()), e.get_message()) for e in errors]
    labels.add("reported")
    if len(done) > 1:
        labels.add("several defects")
        return labels
    kind = done[0]
    labels.add(kind)
    for code, path, names in want:
        ok = [g for g in got if g[0].startswith(code) and (path is None or g[1] == path) and all(n in g[2] for n in names)]
        expect(ok, lambda: f"the defect '{kind}' is not reported as {code}, at {path or 'some place'}, naming {names}; reported: {got}")
    codes = {w[0] for w in want}
    odd = sorted({g[0] for g in got if not any(g[0].startswith(c) for c in codes)} - FOLLOWS - ALSO.get(kind, set()))
    expect(not odd, lambda: f"besides {sorted(codes)}, the defect '{kind}' is reported as {odd}: {got}")
    return labels


def nontrivial(case, labels):
    return "reported" in labels


MUST_HIT = sorted(set(XML) | set(C32.KINDS)) + ["link: no language", "several defects", "severity E", "severity W", "area SCH", "area ING", "area INI", "area INX",
                                               "area LNK", "area LAB", "area FOO", "area MSC", "area TXP"]
