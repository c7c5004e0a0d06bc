"""C25  Data frames and dictionaries hold the same data as the objects."""
import json

from lib import obs, tables
from lib.harness import expect, expect_eq, under_test
from brel.characteristics import Aspect, ConceptCharacteristic, ExplicitDimensionCharacteristic
from brel.reportelements import Concept, Dimension

ID = "C25"
QUICK = 4000
THOROUGH = 60000
RULE = ("reports with facts (dimensions, units, nil), labels in up to 9 languages and networks for up to 3 roles; "
        "non-trivial = at least two facts with different aspects and a network")
MUST_HIT = ["dimension column", "missing cells", "no id", "nil", "typed", "component without network", "component with every network",
            "three levels", "label", "no facts", "core facts only differ", "lineitems", "hypercube", "abstract", "member", "dimension", "concept"]
KIND_NAME = {"concept": "concept", "abstract": "abstract", "lineitems": "line item", "hypercube": "hypercube", "dimension": "dimension",
             "member": "member"}
NAMES_ONLY = {"languages": [], "allow_default": True, "allow_mixed": True, "allow_system_language": False, "allow_report_language": False,
              "match_locale": True}


def strategy(tier):
    return tables.report(tier)


def local(q):
    return q.get_local_name()


def prefixed(q):
    return f"{q.get_prefix()}:{q.get_local_name()}"


def node_dict(n):
    return {"points_to": n.points_to(), "arc_role": n.get_arc_role(), "arc_name": prefixed(n.get_arc_name()),
            "link_role": n.get_link_role(), "link_name": prefixed(n.get_link_name()), "order": n.get_order(),
            "children": [node_dict(c) for c in n.get_children()]}


def depth(n):
    return 1 + max([depth(c) for c in n.get_children()], default=0)


def check(m):
    out = set()
    filing = obs.open_files(tables.files_of(m), "i.xml")
    obs.expect_no_errors(filing)
    with under_test("the tables and dictionaries of a report"):
        facts = filing.get_all_facts()
        expect_eq(len(facts), len(m["facts"]), "number of facts")
        rows = []
        for f in facts:
            plain, named = {}, {}
            for a in f.get_aspects():
                c = f.get_characteristic(a)
                plain[a.get_name()] = str(c.get_value())
                named[a.get_name()] = (local(c.get_value().get_name()) if isinstance(c, (ConceptCharacteristic, ExplicitDimensionCharacteristic))
                                       else c.get_name() if a == Aspect.UNIT else str(c.get_value()))
                if not a.is_core():
                    out.add("dimension column")
                    if not isinstance(c, ExplicitDimensionCharacteristic):
                        out.add("typed")
            d = f.convert_to_dict()
            expect_eq(d, {**plain, "id": f.get_id() or "", "value": f.get_value_as_str()}, "dictionary of a fact")
            expect_eq(dict(f), d, "dict() of a fact")
            expect_eq(json.loads(json.dumps(d)), d, "the dictionary of a fact as JSON")
            rows.append({**named, "id": f.get_id() or "none", "value": f.get_value_as_str()})
            if not f.get_id():
                out.add("no id")
        core = [r for f, r in zip(facts, rows) if all(a.is_core() for a in f.get_aspects())]
        expect_eq([id(f) for f in filing.get_all_core_facts()], [id(f) for f in facts if all(a.is_core() for a in f.get_aspects())],
                  "core facts")
        tables.expect_frame(filing.generate_fact_table_pandas_df(**NAMES_ONLY), rows, "fact table")
        tables.expect_frame(filing.generate_core_fact_table_pandas_df(**NAMES_ONLY), core, "core fact table")
        if 0 < len(core) < len(rows):
            out.add("core facts only differ")
        if len({tuple(sorted(r)) for r in rows}) > 1:
            out.add("missing cells")
        if not rows:
            out.add("no facts")
        if any(f["nil"] for f in m["facts"]):
            out.add("nil")

        elements = filing.get_all_report_elements()
        rows, label_rows = [], []
        for e in elements:
            kind = obs.kind_of(e)
            out.add(kind)
            name, label = prefixed(e.get_name()), str(e.select_main_label())
            d = {"name": name, "label": label, "report-element-type": KIND_NAME[kind]}
            row = {"name": name, "label": label, "report-element-type": {"lineitems": "line-items"}.get(kind, kind)}
            if isinstance(e, Concept):
                d.update({"period-type": e.get_period_type(), "balance-type": e.get_balance_type(), "nillable": e.is_nillable(),
                          "data-type": e.get_data_type()})
                row.update({"period-type": e.get_period_type(), "balance-type": e.get_balance_type() or "none",
                            "nillable": str(e.is_nillable()).lower(), "data-type": e.get_data_type().split(":")[-1]})
            if isinstance(e, Dimension):
                t = None if e.is_explicit() else e.get_type()
                d.update({"is-explicit": e.is_explicit(), "dimension_type": None if t is None else prefixed(t)})
                row.update({"is-explicit": str(e.is_explicit()).lower(), "dimension-type": "none" if t is None else local(t)})
            expect_eq(e.convert_to_dict(), d, "dictionary of a report element")
            rows.append(row)
            for l in e.get_labels():
                out.add("label")
                label_rows.append({"text": l.get_content(), "language": l.get_language(), "label_role": l.get_label_role(),
                                   "report_element": e.get_name()})
                expect_eq(l.convert_to_dict(), {k: v for k, v in label_rows[-1].items() if k != "report_element"}, "dictionary of a label")
        tables.expect_frame(filing.generate_report_elements_as_pandas_df(**NAMES_ONLY), rows, "table of report elements")
        expect_eq(filing.get_all_labels(), label_rows, "list of labels")
        expect_eq(sorted([r["text"], r["language"], r["label_role"]] for r in label_rows),
                  sorted([l["text"], l["lang"], l["role"]] for l in m["labels"]), "labels of the list")
        tables.expect_frame(filing.generate_labels_as_pandas_df(), label_rows, "table of labels")

        comps = filing.get_all_components()
        expect_eq(sorted(c.get_URI() for c in comps), sorted(m["roles"]), "components")
        expect_eq(filing.get_all_component_uris(), [c.get_URI() for c in comps], "URIs of the components")
        rows = []
        for c in comps:
            has = [c.has_presentation_network(), c.has_calculation_network(), c.has_definition_network()]
            ns = [c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()]
            expect_eq(has, [n is not None for n in ns], "whether a component has networks")
            expect_eq([id(n) for n in c.get_networks()], [id(n) for n in ns if n is not None], "networks of a component")
            expect(filing.get_component(c.get_URI()) is c, "component by URI")
            keys = ["presentation-network", "calculation-network", "definition-network"]
            d = {"network-identifier": c.get_URI(), "info": c.get_info(), **dict(zip(keys, has))}
            expect_eq(c.convert_to_dict(), d, "dictionary of a component")
            rows.append({**d, **{k: str(h).lower() for k, h in zip(keys, has)}})
            if not any(has):
                out.add("component without network")
            if all(has):
                out.add("component with every network")
        tables.expect_frame(filing.generate_components_as_pandas_df(**NAMES_ONLY), rows, "table of components")
        for n in [n for c in comps for n in c.get_networks()] + filing.get_all_physical_networks():
            d = n.convert_to_dict()
            expect_eq(d, {"roots": [node_dict(r) for r in n.get_roots()], "link_role": n.get_link_role(),
                          "link_name": prefixed(n.get_link_name()), "is_physical": n.is_physical()}, "dictionary of a network")
            expect_eq(json.loads(json.dumps(d)), d, "the dictionary of a network as JSON")
            if max(map(depth, n.get_roots()), default=0) >= 3:
                out.add("three levels")
    return out


def nontrivial(m, labels):
    return "missing cells" in labels and bool(m["links"])
