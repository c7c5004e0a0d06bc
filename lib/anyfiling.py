"""Filings of every sort: reports with networks, labels and footnotes, bare networks, inline pages, and filings with defects."""
from hypothesis import strategies as st

from lib import ix, nets, obs, xw


def strategy(tier, kinds=("report", "report", "calculation", "presentation", "definition", "inline", "pages", "defective")):
    from checks import C19, C20, C21, C28
    sources = {"report": C28.strategy(tier), "inline": C20.strategy(tier), "pages": C19.strategy(tier), "defective": C21.strategy(tier)}
    for k in ("presentation", "calculation", "definition"):
        sources[k] = nets.net_filing(k, tier, **({"kinds": ("concept", "text")} if k == "calculation" else {}))
    return st.one_of(*[sources[k].map(lambda m, k=k: {"sort": k, "m": m}) for k in kinds])


def files_of(x):
    """(files, entry)"""
    from checks import C19, C20, C21, C28
    m = x["m"]
    if x["sort"] == "report":
        return C28.files_of(m), "i.xml"
    if x["sort"] == "inline":
        tax = ix.simple_taxonomy(["xbrli:stringItemType", "xbrli:decimalItemType"])
        tax["roles"] = [{"uri": "http://example.com/role/A", "id": "A", "usedOn": ["link:footnoteLink"]}]
        return {"t.xsd": xw.schema_xml(tax), "p.xhtml": ix.page_xml(C20._page(m, set())[0])}, "p.xhtml"
    if x["sort"] == "pages":
        _, _, files, entry = C19.files_of(m, set())
        return files, entry
    if x["sort"] == "defective":
        doc = C21.Doc(C21._files(m))
        for kind, n in m["defects"]:
            try:
                C21.KINDS[kind](doc, n)
            except (KeyError, AttributeError, IndexError, TypeError):
                pass
        return doc.files(), C21.entry_of(m)
    return nets.net_files(m)[0], "i.xml"


def view(filing):
    """Everything of a filing, as JSON."""
    v = {"facts": [[f, obs_dict(x)] for f, x in zip(obs.facts_view(filing), filing.get_all_facts())],
         "elements": [[e, str(x.get_name()), x.convert_to_dict()] for e, x in zip(obs.elements_view(filing), filing.get_all_report_elements())],
         "components": [[c.get_URI(), c.get_info(), [[obs.network_view(n), n.convert_to_dict()] for n in c.get_networks()]]
                        for c in filing.get_all_components()],
         "networks": [[obs.network_view(n), n.convert_to_dict()] for n in filing.get_all_physical_networks()],
         "labels": [[str(x) for x in r.values()] for r in filing.get_all_labels()],
         "errors": [str(e) for e in filing.get_all_errors()]}
    return v


def obs_dict(f):
    return f.convert_to_dict()
