"""Opening filings and observing them through brel's public API only."""
import os
import shutil

from lib.harness import Violation, under_test

import brel
from brel import Filing, QName  # noqa: F401
from brel.characteristics import (
    Aspect,  # noqa: F401
    ExplicitDimensionCharacteristic,
    TypedDimensionCharacteristic,
)
from brel.networks import (
    CalculationNetwork,
    DefinitionNetwork,
    FootnoteNetwork,
    LabelNetwork,
    PresentationNetwork,
    ReferenceNetwork,
)
from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member

assert os.path.realpath(brel.__file__).startswith(os.path.realpath(os.environ.get("BREL_REPO", "/repo")) + "/"), brel.__file__

WORK = os.environ["VERIF_WORK"]
CACHE = os.path.join(os.path.expanduser("~"), ".brel", "dts_cache")
_counter = [0]


def clear_cache():
    if os.path.isdir(CACHE):
        for name in os.listdir(CACHE):
            p = os.path.join(CACHE, name)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)


def case_dir(keep_cache=False):
    """A fresh empty directory for this case; the directory of the previous case goes away."""
    d = os.path.join(WORK, "case")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    if not keep_cache:
        clear_cache()
    return d


def write_files(root, files):
    for rel, content in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8"))


def open_files(files, entry, what="opening a well-formed filing", keep_cache=False):
    d = case_dir(keep_cache)
    write_files(d, files)
    with under_test(what):
        return Filing.open(os.path.join(d, entry) if entry else d)


def open_path(path, what="opening a well-formed filing"):
    with under_test(what):
        return Filing.open(path)


# ------------------------------------------------------------------ views

def clark(q):
    return "{%s}%s" % (q.get_URL(), q.get_local_name())


KINDS = {Concept: "concept", Abstract: "abstract", LineItems: "lineitems", Hypercube: "hypercube",
         Dimension: "dimension", Member: "member"}


def kind_of(e):
    for k, v in KINDS.items():
        if isinstance(e, k):
            return v
    return type(e).__name__


def period_view(p):
    if p is None:
        return None
    if p.is_instant():
        return ["instant", p.get_instant_period().isoformat()]
    return ["duration", p.get_start_period().isoformat(), p.get_end_period().isoformat()]


def unit_view(u):
    if u is None:
        return None
    return {"name": u.get_name(), "num": sorted(clark(q) for q in u.get_numerators()),
            "den": sorted(clark(q) for q in u.get_denominators())}


def dim_view(f):
    res = []
    for a in f.get_aspects():
        if a.is_core():
            continue
        c = f.get_characteristic(a)
        if isinstance(c, ExplicitDimensionCharacteristic):
            res.append(["explicit", clark(c.get_dimension().get_name()), clark(c.get_member().get_name())])
        elif isinstance(c, TypedDimensionCharacteristic):
            res.append(["typed", clark(c.get_dimension().get_name()), c.get_value()])
        else:
            raise Violation(f"aspect {a.get_name()!r} of fact {f.get_id()!r} has characteristic {c!r}")
    return sorted(res)


def fact_view(f):
    e = f.get_entity()
    return {
        "id": f.get_id(),
        "value": str(f),
        "concept": clark(f.get_concept().get_name()),
        "period": period_view(f.get_period()),
        "entity": None if e is None else e.get_value(),
        "unit": unit_view(f.get_unit()),
        "dims": dim_view(f),
    }


def facts_view(filing):
    with under_test("reading the facts"):
        return [fact_view(f) for f in filing.get_all_facts()]


def label_view(l):
    return [l.get_content(), l.get_language(), l.get_label_role()]


def element_view(e):
    v = {"name": clark(e.get_name()), "kind": kind_of(e), "id": e.get_id(),
         "labels": sorted(label_view(l) for l in e.get_labels())}
    if isinstance(e, Concept):
        v.update(period_type=e.get_period_type(), balance=e.get_balance_type(), nillable=e.is_nillable(),
                 data_type=e.get_data_type())
    if isinstance(e, Dimension):
        v["typed"] = None if e.is_explicit() else clark(e.get_type())
    return v


def elements_view(filing):
    with under_test("reading the report elements"):
        return [element_view(e) for e in filing.get_all_report_elements()]


NETKIND = [(PresentationNetwork, "presentation"), (CalculationNetwork, "calculation"),
           (DefinitionNetwork, "definition"), (LabelNetwork, "label"), (ReferenceNetwork, "reference"),
           (FootnoteNetwork, "footnote")]


def net_kind(n):
    for k, v in NETKIND:
        if isinstance(n, k):
            return v
    return type(n).__name__


def target_view(node):
    pt = node.points_to()
    if pt == "report element":
        return ["element", clark(node.get_report_element().get_name())]
    if pt == "fact":
        return ["fact", node.get_fact().get_id()]
    r = node.get_resource()
    return ["resource", type(r).__name__, r.get_role(), r.get_content()]


def node_view(node, depth=0):
    if depth > 60:
        raise Violation("network deeper than anything in the input (a cycle was introduced)")
    v = {"to": target_view(node), "children": [node_view(c, depth + 1) for c in node.get_children()]}
    v["order"] = float(node.get_order())
    if hasattr(node, "get_preferred_label_role"):
        v["preferred"] = node.get_preferred_label_role()
    if hasattr(node, "get_weight"):
        v["weight"] = float(node.get_weight())
    v["arcrole"] = node.get_arc_role()
    return v


def network_view(n):
    return {"kind": net_kind(n), "role": n.get_link_role(), "physical": n.is_physical(),
            "roots": [node_view(r) for r in n.get_roots()]}


def sort_tree(v):
    """Order-insensitive normal form of a node view."""
    import json
    c = [sort_tree(x) for x in v["children"]]
    c.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return {**v, "children": c}


def error_view(e):
    return {"severity": e.get_severity().name, "area": e.get_area().name, "message": e.get_message()}


def errors_of(filing):
    with under_test("reading the error list"):
        return filing.get_all_errors()


def expect_no_errors(filing, what="a well-formed filing"):
    errs = errors_of(filing)
    if errs:
        raise Violation(f"{what} was reported to contain errors: " + "; ".join(str(e) for e in errs[:4]))
