"""C33  Asking a filing changes no answer."""
import contextlib
import inspect
import io
import json

from hypothesis import strategies as st

import brel
from brel import Component, Fact, QName
from brel.characteristics import Aspect, ICharacteristic
from brel.errors.area import Area
from brel.errors.severity import Severity
from brel.networks import INetwork, INetworkNode
from brel.reportelements import IReportElement
from brel.resource import IResource
from brel.utils import pprint
from lib import anyfiling, obs, tables
from lib.gen import weighted
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C33"
QUICK = 2400
THOROUGH = 40000
RULE = ("filings of any sort (reports, bare networks, inline pages, filings with defects) and 4-20 questions about them and their facts, elements, labels, "
        "components, networks, nodes, characteristics and errors (all public methods without arguments, look-ups, comparisons, tables in several languages, "
        "dictionaries, prints, validity of calculations); every question is asked twice in one order and once in another one, of two openings, and "
        "everything is read at the end and compared with a third opening; non-trivial = questions about three kinds of objects, one of which makes "
        "a table, a dictionary or a print")
MUST_HIT = ["filing", "fact", "element", "component", "network", "node", "label", "characteristic", "context", "error", "table", "dictionary", "print",
            "languages", "look-up", "equality", "raised", "validity", "report", "inline", "pages", "defective", "presentation", "calculation", "definition"]

LANGS = ["en", "de", "fr-CH", "es-ES", "xx", "", "en-US"]
ROLES = ["http://www.xbrl.org/2003/role/label", "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/totalLabel"]
SKIP = {"open", "generate_fact_table_spark_df", "generate_core_fact_table_spark_df", "make_typed", "set_filing_output_params", "set_global_output_params"}
TABLES = ["generate_fact_table_pandas_df", "generate_core_fact_table_pandas_df", "generate_components_as_pandas_df", "generate_report_elements_as_pandas_df",
          "generate_labels_as_pandas_df"]
NUM = st.integers(0, 11)


@st.composite
def _question(draw, places):
    on = draw(weighted((5, st.just("filing")), (4, st.just("fact")), (4, st.just("element")), (2, st.just("component")), (4, st.just("network")),
                       (5, st.just("node")), (2, st.just("label")), (2, st.just("characteristic")), (2, st.just("context")), (1, st.just("error"))))
    q = {"on": on, "at": [draw(st.sampled_from(places)), draw(NUM)]}
    kinds = [(6, "method"), (1, "equality"), (1, "str")]
    if on in ("fact", "element", "component", "network", "node"):
        kinds.append((2, "dictionary"))
    if on in ("fact", "component", "network", "element"):
        kinds.append((2, "print"))
    if on == "filing":
        kinds = [(4, "method"), (4, "table"), (4, "look-up"), (1, "print")]
    elif on == "network":
        kinds.append((2, "validity"))
    elif on in ("element", "fact"):
        kinds.append((2, "look-up"))
    q["ask"] = draw(weighted(*[(w, st.just(k)) for w, k in kinds]))
    q["n"] = draw(st.integers(0, 63))
    if q["ask"] == "table":
        q["languages"] = draw(st.none() | st.lists(st.sampled_from(LANGS), max_size=3))
        q["flags"] = draw(st.lists(st.tuples(st.sampled_from(["match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language"]),
                                             st.booleans()), max_size=2))
    return q


@st.composite
def _case(draw, tier):
    places = draw(st.lists(NUM, min_size=1, max_size=3))  # few, so that the same thing is asked for more than once
    qs = draw(st.lists(_question(places), min_size=4, max_size=12 if tier == "quick" else 24))
    filing = draw(anyfiling.strategy("quick"))
    if filing["sort"] in ("calculation", "report") and draw(st.booleans()):
        qs.insert(draw(st.integers(0, len(qs))), {"on": "network", "ask": "validity", "at": [draw(st.sampled_from(places)), draw(NUM)], "n": 0})
    return {"filing": filing, "questions": qs, "order": draw(st.permutations(range(len(qs))))}


def strategy(tier):
    return _case(tier)


# ------------------------------------------------------------------ what a question is about

def pick(xs, n):
    return xs[n % len(xs)] if xs else None


def networks(filing):
    return [*filing.get_all_physical_networks(), *[n for c in filing.get_all_components() for n in c.get_networks()]]


def nodes(network):
    out = []

    def walk(n):
        out.append(n)
        for c in n.get_children():
            walk(c)
    for r in network.get_roots():
        walk(r)
    return out


def subject(filing, q):
    a, b = q["at"]
    on = q["on"]
    if on == "filing":
        return filing
    if on in ("fact", "characteristic", "context"):
        f = pick(filing.get_all_facts(), a)
        if f is None or on == "fact":
            return f
        if on == "context":
            return f.get_context()
        aspect = pick(f.get_aspects(), b)
        return f.get_characteristic(aspect)
    if on in ("element", "label"):
        e = pick(filing.get_all_report_elements(), a)
        return e if e is None or on == "element" else pick(e.get_labels(), b)
    if on == "component":
        return pick(filing.get_all_components(), a)
    if on == "error":
        return pick(filing.get_all_errors(), a)
    n = pick(networks(filing), a)
    return n if n is None or on == "network" else pick(nodes(n), b)


def methods(x):
    """The names of the public methods that need no argument."""
    names = []
    for name in sorted(dir(type(x))):
        f = inspect.getattr_static(type(x), name)
        if name.startswith("_") or name in SKIP or name.startswith(("generate_", "set_", "add_")) or not inspect.isfunction(f):
            continue
        ps = list(inspect.signature(f).parameters.values())[1:]
        if all(p.default is not p.empty or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL) for p in ps):
            names.append(name)
    return names


def plain(x):
    """An answer as something that can be compared between openings."""
    if x is None or isinstance(x, (str, int, float, bool)):
        return [type(x).__name__, repr(x)]
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=str)
    if isinstance(x, QName):
        return ["name", x.clark_notation(), x.get_prefix()]
    if isinstance(x, Fact):
        return ["fact", obs.fact_view(x)]
    if isinstance(x, IReportElement):
        return ["element", obs.element_view(x)]
    if isinstance(x, Component):
        return ["component", x.get_URI(), x.get_info(), [plain(n) for n in x.get_networks()]]
    if isinstance(x, INetwork):
        return ["network", obs.network_view(x)]
    if isinstance(x, INetworkNode):
        return ["node", obs.node_view(x)]
    if isinstance(x, IResource):
        return ["resource", type(x).__name__, x.get_role(), plain(x.get_content()), x.get_title()]
    if isinstance(x, Aspect):
        return ["aspect", x.get_name()]
    if isinstance(x, ICharacteristic):
        return ["characteristic", type(x).__name__, str(x)]
    if hasattr(x, "to_dict") and hasattr(x, "columns"):
        return ["table", repr(tables.frame_rows(x))]
    text = str(x)
    return [type(x).__name__, text if " at 0x" not in text else ""]


def spellings(name):
    """Of a name, and of others like it."""
    p, l = name.get_prefix(), name.get_local_name()
    return [name, f"{p}:{l}", name.clark_notation(), l, "no:Such", f"{p}x:{l}", f"{p}:{l}x", f"{p[:1]}:{l}", "{%sx}%s" % (name.get_URL(), l),
            QName(name.get_URL() + "x", p, l), QName(name.get_URL(), "other", l)]


def ask(filing, q):
    x = subject(filing, q)
    if x is None:
        return ["nothing to ask"]
    kind, n = q["ask"], q["n"]
    try:
        if kind == "method":
            name = pick(methods(x), n)
            return [name, plain(getattr(x, name)())]
        if kind == "str":
            return [plain(x), str(x) if " at 0x" not in str(x) else ""]
        if kind == "equality":
            others = {"fact": filing.get_all_facts, "element": filing.get_all_report_elements, "component": filing.get_all_components,
                      "network": lambda: networks(filing)}.get(q["on"], lambda: [x])()
            return [x == pick(others, n), x == x]
        if kind == "dictionary":
            return [plain(x.convert_to_dict())]
        if kind == "print":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                pprint(filing.get_all_facts() if q["on"] == "filing" else x)
            return [out.getvalue()]
        if kind == "validity":
            return ["validity"] + [[name, getattr(x, name)(*args)] for name, args in [("is_balance_consistent", []), ("is_aggregation_consistent", [filing.get_all_facts()])]
                    if hasattr(x, name)]
        if kind == "table":
            name = pick(TABLES, n)
            kw = dict(q["flags"])
            if q["languages"] is not None:
                kw["languages"] = list(q["languages"])
            given = json.dumps(kw)
            answer = [name, plain(getattr(filing, name)(**({} if "labels" in name else kw)))]
            expect_eq(json.dumps(kw), given, f"the options handed to {name}")
            return answer
        # look-ups
        if q["on"] == "fact":
            aspect = pick(x.get_aspects(), n)
            return [aspect.get_name(), plain(x.get_characteristic(aspect)), x.get_context().has_characteristic(aspect)]
        if q["on"] == "element":
            return [x.has_label_with_role(pick(ROLES, n)), x.has_label_with_language(pick(LANGS, n))]
        e = pick(filing.get_all_report_elements(), q["at"][0])
        name = None if e is None else pick(spellings(e.get_name()), q["at"][1])
        c = pick(filing.get_all_component_uris(), q["at"][1])
        calls = [lambda: filing.get_component(c), lambda: filing.get_errors_by_area(pick(list(Area), q["at"][0])),
                 lambda: filing.get_errors_by_severity(pick(list(Severity), q["at"][0]))]
        if name is not None:
            calls += 2 * [lambda: filing.get_report_element_by_name(name), lambda: filing.get_concept_by_name(name), lambda: filing.get_concept(name),
                          lambda: filing.get_facts_by_concept_name(name)]
        return [plain(pick(calls, n)())]
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return ["raised", type(e).__name__, str(e)]


def check(m):
    out = {m["filing"]["sort"]}
    files, entry = anyfiling.files_of(m["filing"])
    root = obs.case_dir()
    obs.write_files(root, {"readme.txt": "", **files})
    path = f"{root}/{entry}"
    qs = m["questions"]

    def opened():
        with under_test("opening the filing"):
            return brel.Filing.open(path)

    first, second = opened(), opened()
    answers = [ask(first, q) for q in qs]
    others = {i: ask(second, qs[i]) for i in m["order"]}
    for i, q in enumerate(qs):
        what = f"question {i} ({q['ask']} {answers[i][0] if isinstance(answers[i][0], str) and q['ask'] in ('method', 'table') else ''} of a {q['on']})"
        expect_eq(others[i], answers[i], f"the answer to {what}, asked in another order")
        expect_eq(ask(first, q), answers[i], f"the answer to {what}, asked again")
        if answers[i] == ["nothing to ask"] or (q["ask"] == "validity" and len(answers[i]) == 1):
            continue
        out |= {q["on"], q["ask"]}
        if answers[i][0] == "raised":
            out.add("raised")
        if q.get("languages"):
            out.add("languages")
    whole = [json.dumps(anyfiling.view(f), default=str) for f in (first, second, opened())]
    for w, what in zip(whole, ["asked", "asked in another order"]):
        if w != whole[2]:
            a, b = json.loads(w), json.loads(whole[2])
            for part in b:
                expect_eq(a[part], b[part], f"what a filing gives after it was {what}, {part}")
            expect(False, "what a filing gives changed")
    return out


def nontrivial(m, labels):
    return len(labels & {"filing", "fact", "element", "component", "network", "node", "label", "characteristic", "context", "error"}) >= 3 \
        and bool(labels & {"table", "dictionary", "print"})
