"""C26  Exports are in the languages asked for."""
import copy
import csv
import itertools
import os

from hypothesis import strategies as st

from lib import obs, tables
from lib.harness import Violation, expect, expect_eq, under_test
from brel import Filing
from brel.characteristics import Aspect, ConceptCharacteristic, ExplicitDimensionCharacteristic
from brel.config.brel_config import BrelConfig
from brel.reportelements import Concept, Dimension

ID = "C26"
QUICK = 3200
THOROUGH = 50000
RULE = ("reports with labels in up to 9 languages, exported with 1-4 combinations of the options of the call, the filing and the library, and "
        "10 system languages; non-trivial = labels in two languages, and an export whose preferences name two languages")
MUST_HIT = ["call", "filing", "library", "system", "report", "default", "mixed", "one language", "no language fits", "regions ignored",
            "label in the first language", "label in a later language", "label by default", "translated term", "components", "elements", "facts",
            "one language, not the first", "no locale", "string"]
ASSUMPTIONS = ["the terms of brel are translated as in brel/config/translations.csv", "the system language is what the usual variables say"]

FLAGS = ["match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language"]
ASK = ["en", "en-US", "EN-us", "de-DE", "de", "fr-FR", "it-IT", "pt-BR", "es-ES", "zh-CN", ""]
SYSTEM = {None: None, "C": None, "en_US.UTF-8": "en-US", "de_DE.UTF-8": "de-DE", "fr_FR": "fr-FR", "pt_BR.UTF-8": "pt-BR", "it_IT.UTF-8": "it-IT"}
DEFAULTS = {"languages": [], **{f: True for f in FLAGS}}


@st.composite
def _params(draw, everything):
    p = {}
    for f in FLAGS:
        if everything or draw(st.integers(0, 2)) == 0:
            p[f] = draw(st.booleans())
    langs = st.one_of(st.lists(st.sampled_from(ASK[:-1]), max_size=3), st.sampled_from(ASK[:-1]), st.lists(st.sampled_from(ASK), max_size=2))
    if draw(st.booleans()):
        p["languages"] = draw(langs)
    return p


@st.composite
def _case(draw, tier):
    m = draw(tables.report(tier, max_facts=5))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        steps.append({"what": draw(st.sampled_from(["facts", "facts", "elements", "elements", "components"])),
                      "library": draw(st.none() | _params(True)), "filing": draw(st.none() | _params(False)),
                      "call": draw(_params(draw(st.booleans()))),
                      "system": draw(st.sampled_from(list(SYSTEM)))})
    return {"report": m, "steps": steps}


def strategy(tier):
    return _case(tier)


_terms = None


def terms():
    global _terms
    if _terms is None:
        _terms = {}
        path = os.path.join(os.environ.get("BREL_REPO", "/repo"), "brel/config/translations.csv")
        with open(path, encoding="utf-8-sig", newline="") as f:
            for ns, name, lang, region, text in list(csv.reader(f))[1:]:
                _terms.setdefault((ns.rsplit("/", 1)[1], name), {})[f"{lang}-{region}"] = text
    return _terms


class Nothing(Exception):
    """There is no text in the languages asked for."""


class Model:
    def __init__(self, langs, match_locale, labels):
        self.langs, self.match_locale, self.out = langs, match_locale, labels

    def same(self, a, b):
        a, b = a.lower(), b.lower()
        return a == b or (not self.match_locale and a.split("-")[0] == b.split("-")[0])

    def term(self, group, name):
        known = terms().get((group, name))
        for l in self.langs:
            if l == "" or known is None:
                return name
            for k, v in known.items():
                if self.same(l, k):
                    self.out.add("translated term")
                    return v
        raise Nothing

    def label(self, labels, default):
        for n, l in enumerate(self.langs):
            if l == "":
                self.out.add("label by default")
                return default
            for x in labels:
                if self.same(l, x.get_language()):
                    if not self.same(l, x.get_language()) or l.lower() != x.get_language().lower():
                        self.out.add("regions ignored")
                    self.out.add("label in the first language" if n == 0 else "label in a later language")
                    return str(x)
        raise Nothing


def fact_row(t, f):
    row = {}
    for a in f.get_aspects():
        c = f.get_characteristic(a)
        key = t.label(a.get_labels(), a.get_name())
        if isinstance(c, (ConceptCharacteristic, ExplicitDimensionCharacteristic)):
            e = c.get_value()
            row[key] = t.label(e.get_labels(), e.get_name().get_local_name())
        elif a == Aspect.UNIT:
            row[key] = t.term("unit", c.get_name())
        else:
            row[key] = str(c.get_value())
    row[t.term("literal", "id")] = f.get_id() if f.get_id() else t.term("literal", "none")
    row[t.term("literal", "value")] = f.get_value_as_str()
    return row


def element_row(t, e):
    kind = {"lineitems": "line-items"}.get(obs.kind_of(e), obs.kind_of(e))
    row = {t.term("literal", "name"): str(e.get_name()), t.term("literal", "label"): t.label(e.get_labels(), str(e.select_main_label())),
           t.term("literal", "report-element-type"): t.term("report-element", kind)}
    if isinstance(e, Concept):
        row[t.term("literal", "period-type")] = t.term("period-type", e.get_period_type())
        b = e.get_balance_type()
        row[t.term("literal", "balance-type")] = t.term("literal", "none") if b is None else t.term("balance-type", b)
        row[t.term("literal", "nillable")] = t.term("boolean", str(e.is_nillable()).lower())
        row[t.term("literal", "data-type")] = t.term("data-type", e.get_data_type().split(":")[-1])
    if isinstance(e, Dimension):
        row[t.term("literal", "is-explicit")] = t.term("boolean", str(e.is_explicit()).lower())
        row[t.term("literal", "dimension-type")] = (t.term("literal", "none") if e.is_explicit()
                                                    else t.term("data-type", e.get_type().get_local_name()))
    return row


def component_row(t, c):
    row = {t.term("literal", "network-identifier"): c.get_URI(), t.term("literal", "info"): c.get_info()}
    for k, has in [("presentation", c.has_presentation_network()), ("calculation", c.has_calculation_network()),
                   ("definition", c.has_definition_network())]:
        row[t.term("literal", k + "-network")] = t.term("boolean", str(has).lower())
    return row


def as_list(x):
    return [x] if isinstance(x, str) else list(x or [])


def check(m):
    out = set()
    before = dict(BrelConfig.output_params), {k: os.environ.get(k) for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE")}
    filing = obs.open_files(tables.files_of(m["report"]), "i.xml")
    obs.expect_no_errors(filing)
    report_langs = list(dict.fromkeys(l["lang"] for l in m["report"]["labels"]))
    try:
        for k in before[1]:
            os.environ.pop(k, None)
        for n, s in enumerate(m["steps"]):
            step(m, filing, report_langs, s, n, out)
    finally:
        BrelConfig.output_params = before[0]
        for k, v in before[1].items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    return out


def step(m, filing, report_langs, s, n, out):
    lib = s["library"] if s["library"] is not None else DEFAULTS
    own = s["filing"] if s["filing"] is not None else {}
    if s["system"] is None:
        os.environ.pop("LC_ALL", None)
        out.add("no locale")
    else:
        os.environ["LC_ALL"] = s["system"]
    flag = {f: next((p[f] for p in (s["call"], own, lib) if p.get(f) is not None), False) for f in FLAGS}
    system = SYSTEM[s["system"]]
    asked = [("call", as_list(s["call"].get("languages"))), ("filing", as_list(own.get("languages"))), ("library", as_list(lib.get("languages"))),
             ("system", [system] if system and flag["allow_system_language"] else [])]
    if isinstance(s["call"].get("languages"), str):
        out.add("string")
    what = f"export {n} of the {s['what']}"
    with under_test(what):
        Filing.set_global_output_params(**lib)
        filing.set_filing_output_params(**own)
        table = {"facts": filing.generate_fact_table_pandas_df, "elements": filing.generate_report_elements_as_pandas_df,
                 "components": filing.generate_components_as_pandas_df}[s["what"]]
        items = {"facts": filing.get_all_facts, "elements": filing.get_all_report_elements, "components": filing.get_all_components}[s["what"]]()
    row = {"facts": fact_row, "elements": element_row, "components": component_row}[s["what"]]
    given = copy.deepcopy([s["call"], own, lib])
    try:
        got, failure = table(**s["call"]), None
    except (KeyError, ValueError) as e:
        got, failure = None, e
    except Exception as e:
        raise Violation(f"{what} failed with {type(e).__name__}: {e}")
    expect_eq([s["call"], own, lib], given, f"the options given for {what} (call, filing, library), after it")
    wants, first = [], None
    # in which order the languages of the report are preferred is left open
    for order in (itertools.permutations(report_langs) if flag["allow_report_language"] else [()]):
        langs = [l for _, ls in asked for l in ls] + list(order) + ([""] if flag["allow_default"] else [])
        langs = list(dict.fromkeys(langs))
        labels = set()
        if not langs:
            return  # no language is asked for, and none is allowed
        if flag["allow_mixed"]:
            try:
                want = [row(Model(langs, flag["match_locale"], labels), i) for i in items]
            except Nothing:
                want = None
                labels.add("no language fits")
            labels.add("mixed")
        else:
            want = None
            for k, l in enumerate(langs):
                try:
                    want = [row(Model([l], flag["match_locale"], labels), i) for i in items]
                    if k and items:
                        labels.add("one language, not the first")
                    break
                except Nothing:
                    continue
            labels.add("no language fits" if want is None else "one language")
        if first is None:
            first = want
            out |= labels
            out |= {name for name, ls in asked if ls} | {s["what"]} | ({"report"} if order else set()) | ({"default"} if "" in langs else set())
            if len([l for l in langs if l]) >= 2:
                out.add("two languages asked")
        wants.append(want)
        if failure is None and want is not None:
            try:
                tables.expect_frame(got, want, what)
                return
            except Violation:
                continue
        elif want is None and (failure is not None or len(got) == 0):
            return
    if failure is not None:
        expect(False, f"{what} failed with {type(failure).__name__}: {failure}", want=first)
    if first is None:
        expect(len(got) == 0, f"{what}: there is no text in the languages asked for, but the table has rows", rows=tables.frame_rows(got)[1])
    tables.expect_frame(got, first, what)


def nontrivial(m, labels):
    return "two languages asked" in labels and len({l["lang"] for l in m["report"]["labels"]}) >= 2
