"""The properties, in one place; gen_meta.py turns them into properties.jsonl and MANIFEST.json."""

TESTS = ("the 16 stable tests read a few fixed fixture filings and call isolated helpers on hand-picked values; ")
G = "Hypothesis generators + "


def P(id, title, statement, quant, why, anchors, technique, note, over=None):
    return dict(id=id, title=title, statement=statement, quant=quant, why=TESTS + why, anchors=anchors,
                technique=G + technique, note=note, over=over or ["inputs"])


PROPS = [
P("C01", "Every fact element becomes exactly one fact, unaltered",
  "Opening a well-formed XBRL XML instance yields, through Filing.get_all_facts, exactly one fact per fact element: "
  "with its id (or none), its character content (empty if nil), its concept, and its decimals/precision. "
  "Nothing is lost, duplicated, merged or changed, and reading again gives the same.",
  "all well-formed instances: any number of facts, with or without ids, duplicates, any XML text, any prefixes",
  "none opens facts without id, duplicate facts, markup in values, or prefixes other than the schema's",
  [("fact parsing", "brel/parsers/XML/xml_facts_parser.py"), ("fact store", "brel/data/fact/in_memory_fact_repository.py"),
   ("Filing.get_all_facts", "brel/brel_filing.py")],
  "comparison with the generated model (reference model)",
  "filings of 1-2 schemas and up to 12 facts; values up to 24 characters over a mixed Unicode alphabet"),
P("C02", "Periods are read with their exact dates and kind",
  "A fact's period is an instant or a duration exactly as its context says, with the exact dates given "
  "(time parts and zones of dateTime values not shifting the date); is_instant, the accessors (which raise ValueError for the wrong "
  "kind), the text form and equality agree with that. Periods with a missing or unreadable date are reported as errors.",
  "all pairs of lexical dates 1900-2100, instants and durations, whitespace, dateTime forms, and malformed dates",
  "only ISO dates of the fixtures are read, and no malformed ones",
  [("period parsing", "brel/parsers/XML/characteristics/xml_parse_period.py"),
   ("PeriodCharacteristic", "brel/characteristics/period_characteristic.py")],
  "reference model of dates; invariants over accessors", "dates 1900-01-01..2100-12-31"),
P("C03", "Entity and unit of a fact are those of its context and unitRef",
  "A fact's entity is the scheme and identifier of its context, and its unit has exactly the numerator and denominator "
  "measures of the unit its unitRef names; facts without unitRef have no unit. This holds "
  "across several instance documents that reuse ids, and identifiers shared by different schemes stay different entities.",
  "all combinations of contexts and units, also colliding ids across instances", 
  "the fixtures have one entity, one document and single-measure units",
  [("entity parsing", "brel/parsers/XML/characteristics/xml_parse_entity.py"),
   ("unit parsing", "brel/parsers/XML/characteristics/xml_parse_unit.py"),
   ("UnitCharacteristic", "brel/characteristics/unit_characteristic.py")],
  "comparison with the generated model", "up to 3 units of up to 3+3 measures, 1-2 instance documents per filing"),
P("C04", "A fact carries exactly the dimensions of its context",
  "The aspects of a fact are the core aspects that apply to it plus exactly one aspect per dimension in its context's segment or scenario; "
  "explicit dimensions carry the member, typed dimensions the value, each identified by namespace and local name whatever the prefix. "
  "Asking for an aspect the fact lacks gives None, an empty text, or False, consistently.",
  "all contexts with 0-3 explicit/typed dimensions over 1-2 namespaces",
  "the fixtures have few dimensions, one prefix per namespace, no typed ones with colliding names",
  [("context parsing", "brel/parsers/XML/xml_context_parser.py"),
   ("explicit dimensions", "brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py"),
   ("typed dimensions", "brel/parsers/XML/characteristics/xml_parse_typed_dimension.py"),
   ("aspects", "brel/characteristics/brel_aspect.py"), ("context", "brel/brel_context.py")],
  "comparison with the generated model", "up to 4 contexts with up to 3 dimensions each"),
P("C05", "Report elements: one per declaration, with its kind and attributes",
  "Every element declaration of the taxonomy that is a concept, abstract, line items, hypercube, dimension or member appears exactly "
  "once among the report elements, in that kind (and in the matching typed getter of Filing) and with its id, period type, balance, data type "
  "and nillability; other declarations do not appear.",
  "all schemas: any mix of substitution groups, abstractness, types, prefixes and names",
  "fixtures only contain the shapes US-GAAP filings happen to have",
  [("classification", "brel/parsers/XML/xml_report_element_factory.py"),
   ("schema parsing", "brel/parsers/XML/xml_report_element_parser.py"), ("Concept", "brel/reportelements/concept.py"),
   ("Filing getters", "brel/brel_filing.py")],
  "reference model of the classification", "1-3 schemas, up to 14 declarations each"),
P("C06", "Look-up by name finds exactly the named thing",
  "Looking report elements, concepts and facts up by QName, prefix:name, Clark notation or local name (Filing.get_report_element_by_name, "
  "get_concept_by_name, get_facts_by_concept_name, get_facts_by_concept) gives exactly the elements or facts with that name, and KeyError/ValueError if there is none or it is ambiguous. "
  "QNames are equal (and hash alike) exactly if namespace and local name are.",
  "all names in generated taxonomies, hits and near misses, in every notation",
  "the tests look a handful of names of one fixture up",
  [("look-up", "brel/services/report_element/report_element_service.py"), ("search params", "brel/qnames/qname_search_params.py"),
   ("QName", "brel/qnames/qname.py"), ("Filing", "brel/brel_filing.py")],
  "comparison with a linear search over the model", "taxonomies of 1-3 schemas sharing local names"),
P("C07", "Labels belong to their element, with text, language and role",
  "An element's labels are exactly the label resources its label arcs lead to, with their text, language and role, in every label linkbase of the taxonomy. "
  "has_label_with_role and the main label agree with the labels: the first standard-language one, else the first, else a placeholder.",
  "all label linkbases: several labels per element, languages, roles, several links and files",
  "fixtures have a single en-US label linkbase",
  [("label links", "brel/parsers/XML/networks/xml_label_network_factory.py"), ("labels", "brel/resource/brel_label.py"),
   ("report elements", "brel/reportelements/i_report_element.py")],
  "comparison with the generated model", "up to 4 labels per element, 1-3 links, 1-2 files"),
P("C08", "Presentation networks are the trees the arcs describe",
  "The presentation network of a role has a node for every element at every place its arcs put it, under the right parent, with the order and preferred "
  "label role of the arc; siblings come in ascending order (ties in document order), and roots are exactly the elements no arc of the role leads to.",
  "all forests and DAGs of arcs over elements, any order values, any document order of locators and arcs",
  "fixtures are trees in document order with integer orders",
  [("extended links", "brel/parsers/XML/networks/xml_extended_link_parser.py"),
   ("presentation nodes", "brel/networks/presentation_network_node.py"),
   ("presentation factory", "brel/parsers/XML/networks/xml_presentation_network_factory.py")],
  "reference model of the tree", "DAGs of up to 9 elements; up to 3 roles"),
P("C09", "Calculation networks keep every summand with its weight",
  "The calculation network of a role has exactly the parents and children its arcs describe, each child with the weight and order of its arc; "
  "networks of different roles do not mix.",
  "all DAGs of summation arcs, positive, negative and fractional weights",
  "fixtures only have weights 1 and -1 and trees",
  [("calculation factory", "brel/parsers/XML/networks/xml_calculation_network_factory.py"),
   ("calculation nodes", "brel/networks/calculation_network_node.py"),
   ("extended links", "brel/parsers/XML/networks/xml_extended_link_parser.py")],
  "reference model of the tree", "DAGs of up to 9 concepts; up to 3 roles"),
P("C10", "Definition networks: one per arc role, plus the combined one",
  "For every definition role there is one physical network per arc role, holding exactly the arcs of that arc role, and one logical network holding all of them; "
  "every node keeps the arc role and order of its arc.",
  "all definition links over the dimensional arc roles",
  "the fixtures' definition networks are only counted",
  [("definition factories", "brel/parsers/XML/networks/xml_definition_network_factory.py"),
   ("definition nodes", "brel/networks/definition_network_node.py"),
   ("extended links", "brel/parsers/XML/networks/xml_extended_link_parser.py")],
  "reference model of the networks", "up to 12 arcs over 7 arc roles; up to 3 roles"),
P("C11", "References and footnotes lead from their element or fact to the resource",
  "Reference networks connect each element to exactly the reference resources its arcs lead to, with role and parts; footnote networks in XML instances connect each "
  "fact to exactly its footnotes, with text, language and role.",
  "all reference and footnote links", "fixtures contain no footnotes and references are not compared",
  [("references", "brel/parsers/XML/networks/xml_reference_network_factory.py"),
   ("footnotes", "brel/parsers/XML/networks/xml_footnote_network_factory.py"),
   ("resources", "brel/parsers/XML/networks/xml_resource_parser.py")],
  "reference model of the networks", "up to 8 arcs per link, m:n arcs"),
P("C12", "Components: one per declared role, with its definition and networks",
  "Filing.get_all_components has one component per roleType of the taxonomy, with its URI and definition text; the component's presentation, calculation and "
  "definition network are those of its role and None if there is none, and get_component(uri) finds it.",
  "all sets of roleTypes with or without definition and networks", "fixtures' components are only counted",
  [("component parsing", "brel/parsers/XML/xml_component_parser.py"), ("Component", "brel/brel_component.py"),
   ("Filing", "brel/brel_filing.py")],
  "comparison with the generated model", "up to 5 roles over 1-2 schemas"),
P("C13", "Splitting a network over several links or files changes nothing",
  "Distributing the arcs of a role over several extended links with that role, in one linkbase or several files, gives the same presentation and calculation network and the same "
  "logical definition network as one link holding them all.",
  "all partitions of the arcs of a DAG into up to four links in one or two files, in any order", "no fixture splits a link",
  [("network combination", "brel/parsers/utils/network_utils.py"), ("networks parser", "brel/parsers/XML/networks/xml_networks_parser.py")],
  "metamorphic relation (split link against single link)", "DAGs of up to 9 elements, up to 4 links"),
P("C14", "Balance consistency is decided by the sign rule",
  "CalculationNetwork.is_balance_consistent is true exactly if every concept involved has a balance, same balances are joined by a weight that is not negative and "
  "different balances by a weight that is not positive, at every depth.",
  "all calculation forests with any balances and weights", "one fixture network with one verdict",
  [("is_balance_consistent", "brel/networks/calculation_network.py")],
  "reference implementation on the model", "DAGs of up to 9 concepts"),
P("C15", "Aggregation consistency is decided by the weighted sums",
  "CalculationNetwork.is_aggregation_consistent is true exactly if for every fact of every summation parent the weighted sum of its children's facts with the same other "
  "aspects equals the parent's value (ValueError if a child has none or several such facts).",
  "all calculation trees with facts in several contexts, periods, units and dimensions", "one fixture network with one verdict",
  [("is_aggregation_consistent", "brel/networks/calculation_network.py")],
  "exact rational reference implementation on the model", "trees up to 7 concepts, up to 3 contexts"),
P("C16", "Inline numeric facts have the value their format, scale and sign denote",
  "The value of an inline numeric fact is the number its text denotes under its format's transformation rule, times ten to its scale, negated if sign is '-'.",
  "all number/format/scale/sign combinations of the Inline XBRL transformation registry",
  "few formats are exercised, each with one or two strings",
  [("non-fraction", "brel/parsers/XHMTL/elements/parse_non_fraction.py"),
   ("transformations", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")],
  "round trip: a number is rendered in a format by the generator, brel must read it back", "numbers up to 12 digits + 6 decimals, scales -6..9"),
P("C17", "Inline dates, booleans and fixed values have the value their format denotes",
  "The value of an inline fact with a date, boolean or fixed-value transformation is the canonical form (ISO date, month-day, year-month, true/false, empty, zero) of the value its text denotes in that format's language and field order.",
  "all dates 1900-2100 in every supported format and language", "one sample string per format at most",
  [("transformations", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"),
   ("non-numeric", "brel/parsers/XHMTL/elements/parse_non_numeric.py")],
  "round trip: a date is rendered in a format by the generator, brel must read it back", "dates 1900..2100"),
P("C18", "Inline text facts are the marked-up text, continuations in, exclusions out",
  "The value of an inline text fact is its text content in document order followed by that of its continuation chain, without anything inside ix:exclude; with escape='true' the markup is kept.",
  "all nestings of XHTML, ix:exclude, nested ix facts and continuation chains", "one fixture",
  [("continuations", "brel/parsers/XHMTL/elements/parse_continuation_chain.py"),
   ("non-numeric", "brel/parsers/XHMTL/elements/parse_non_numeric.py")],
  "comparison with the generated model", "trees of depth up to 4, chains up to 4"),
P("C19", "An inline filing and its XML equivalent give the same report",
  "A filing published as Inline XBRL gives the same facts (id, concept, value, context, unit, dimensions), elements and networks as the XML instance it is equivalent to, wherever "
  "the inline elements stand in the page.",
  "all generated filings in both syntaxes", "no test compares both syntaxes",
  [("inline facts", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("inline filing", "brel/parsers/xhtml_filing_parser.py"),
   ("XML facts", "brel/parsers/XML/xml_facts_parser.py")],
  "differential (two syntaxes of one model)", "as C01/C04 filings, over random page layouts"),
P("C20", "Inline footnotes attach to the facts their relationships name",
  "The footnote networks of an inline filing connect exactly the facts and footnotes (or facts) that ix:relationship elements name, with the footnotes' text, language and role, under the given link role and arc role.",
  "all relationship sets, m:n, with and without order", "no test covers footnotes",
  [("inline footnotes", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py")],
  "comparison with the generated model", "up to 6 relationships"),
P("C21", "A defect in one part of a filing is reported and costs nothing else",
  "When one fact, context, unit, arc, locator or element of a filing is malformed (dangling reference, missing attribute, unknown name, duplicate), opening the filing "
  "succeeds, reports at least one error for it, and yields every other fact, element and network unchanged.",
  "all combinations of 1-3 injected defects over generated filings", "few error codes are triggered, each in one fixed place",
  [("facts", "brel/parsers/XML/xml_facts_parser.py"), ("contexts", "brel/parsers/XML/xml_context_parser.py"),
   ("links", "brel/parsers/XML/networks/xml_extended_link_parser.py"), ("errors", "brel/errors/error_factory_registry.py")],
  "fault injection with a differential oracle (the undamaged part)", "1-3 defects per filing, some 50 kinds", ["inputs", "fault_sequences"]),
P("C22", "Every error says what is wrong and where, and the error getters agree",
  "A defect in an XML filing or inline page is reported with the error code (severity, area, number) of that sort of defect, with the damaged element as its context, and with a "
  "message that names the offending id, name or value; a filing without defects has no errors. get_errors, get_warnings, get_infos, get_errors_by_severity and get_errors_by_area are "
  "exactly the errors of get_all_errors of that severity or area, in order; has_any_errors, the full code and the text of an error agree with that.",
  "all positions of some 110 kinds of defects in generated filings", "no test looks at codes, contexts or messages",
  [("errors", "brel/errors/error_factory_registry.py"), ("error instances", "brel/errors/error_instance.py"),
   ("repository", "brel/data/errors/error_repository.py"), ("Filing", "brel/brel_filing.py")],
  "table of the expected code, place and names per injected defect; consistency relations between getters", "single defects for the codes, up to 3 defects for the getters",
  ["inputs", "fault_sequences"]),
P("C23", "All and only reachable documents are loaded, however the filing is given",
  "Opening a filing loads exactly the documents reachable through schemaRef, import, include, linkbaseRef and locator references (with catalog redirection), each once, "
  "and a folder and a zip of the documents give the same report as the entry document.",
  "all reference graphs (cycles, sub-folders, ./.. spellings), and the forms of Filing.open", "the fixtures are flat folders",
  [("discovery", "brel/services/file/file_service.py"), ("loaders", "brel/parsers/path_loaders/folder_path_loader.py"),
   ("file utils", "brel/parsers/utils/file_utils.py"), ("catalog", "brel/parsers/XML/xml_parse_catalog.py"), ("parser factory", "brel/parsers/filing_parser_factory.py")],
  "reachability on the generated graph; differential between forms", "up to 8 documents over 3 folders"),
P("C24", "The document cache never changes what is read",
  "Opening a filing gives the same with an empty and a filled cache: remote documents are read byte for byte as downloaded and downloaded at most once, distinct URLs never share an entry, and local "
  "documents are always read as they are now on disk, even after a process died or a disk was full while the cache was written.",
  "all histories of opens, edits of local files and cache clearing over generated URLs", "no test touches the cache",
  [("cache", "brel/data/file/pyfs_file_repository.py"), ("file service", "brel/services/file/file_service.py"),
   ("naming", "brel/parsers/utils/url_utils.py")],
  "stateful histories against a model of the file system and a stubbed network", "up to 8 steps over 4 URLs", ["histories", "inputs"]),
P("C25", "Data frames and dictionaries hold the same data as the objects",
  "convert_to_df, convert_to_dict and fact tables have one row per fact and one column per aspect, with exactly the values the object API gives, and dictionaries of networks and components mirror their trees.",
  "all generated filings", "columns of one fixture",
  [("Fact", "brel/brel_fact.py"), ("Filing", "brel/brel_filing.py"), ("Component", "brel/brel_component.py"), ("networks", "brel/networks/i_network_node.py")],
  "differential between object API and exports", "filings as in C04 and C08"),
P("C26", "Labels in exports follow the languages asked for",
  "Where an export takes a list of languages, the label chosen for an element is one in the first of these languages it has a label in, and else one the documented fallback gives.",
  "all label sets and language preference lists", "one language",
  [("translation", "brel/services/translation/translation_service.py"), ("Filing", "brel/brel_filing.py")],
  "reference model of the selection", "up to 4 languages"),
P("C27", "What is read does not depend on incidental syntax",
  "Comments, processing instructions, whitespace, attribute and namespace-prefix choice, encoding, the order of independent elements, and the process's hash seed have no influence on the facts, elements and networks of a filing.",
  "all such rewritings of generated filings", "the fixtures have one layout each",
  [("XML service", "brel/services/xml/xml_service.py"), ("namespace normaliser", "brel/parsers/XML/xml_namespace_normalizer.py"), ("lxml utils", "brel/parsers/utils/lxml_utils.py")],
  "metamorphic rewriting of the input", "up to 4 rewritings per filing"),
P("C28", "Printing shows every node and every fact",
  "pprint of networks, components and facts terminates, prints each node exactly once per place in the tree, indented under its parent, and every value.",
  "all generated networks and fact lists", "output is never compared",
  [("pprint", "brel/utils/pprint.py"), ("networks", "brel/utils/print_networks.py"), ("facts", "brel/utils/print_facts.py")],
  "parse-back of the printed text", "networks as in C08"),
P("C29", "Typed access to fact values agrees with the text",
  "int(fact), float(fact), bool(fact) and get_value give the number, truth value or text that the fact's lexical value denotes under its concept's data type, and ValueError otherwise.",
  "all lexical values over all item types", "a few values",
  [("Fact", "brel/brel_fact.py"), ("Concept", "brel/reportelements/concept.py")],
  "reference model (decimal arithmetic)", "values up to 40 characters"),
P("C30", "Filings opened in one process do not influence each other",
  "Opening, reading or failing to open other filings, in any order, never changes what a filing gives, and opening the same filing again gives the same.",
  "all histories of opens and reads over several generated filings, also with shared names, ids and cached documents", "tests open one filing at a time",
  [("Filing", "brel/brel_filing.py"), ("context", "brel/contexts/factory.py"), ("repositories", "brel/data/factory.py"), ("namespaces", "brel/qnames/qname_utils.py")],
  "stateful histories compared with opens in isolation", "up to 8 steps over 3 filings", ["histories", "inputs"]),
P("C31", "open_edgar opens exactly the filing asked for",
  "open_edgar resolves a CIK (however it is padded), form and report date to the right XBRL filing among the recent filings in the SEC's index, the one with the latest report date if none is given, "
  "and opens that filing's instance; what is unknown or malformed raises ValueError, and the index is asked for again once it is older than a day, even after a process died while it was written.",
  "all generated EDGAR indexes", "needs a network", 
  [("edgar", "brel/utils/edgar.py")], "stub of the SEC endpoints with a reference model", "indexes of up to 8 filings"),
P("C32", "A defect in an inline page is reported and costs nothing else",
  "Opening an inline page with a defect (a fact with an unknown or missing concept, context or unit, an unreadable number or date, an unknown format, broken continuation chains, "
  "footnotes, relationships, contexts, units, header sections or role references) never raises: the defect is reported, and every fact, footnote and relationship "
  "that it does not touch is as in the page without it.",
  "all pages with 1-3 defects of some 60 kinds", "the tests open sound fixtures only",
  [("inline facts", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("numbers", "brel/parsers/XHMTL/elements/parse_non_fraction.py"),
   ("continuations", "brel/parsers/XHMTL/elements/parse_continuation_chain.py"), ("header", "brel/parsers/XHMTL/elements/parse_header.py"),
   ("footnotes", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py")],
  "metamorphic relation (page with defects against the sound page)", "up to 7 facts, 3 footnotes, 4 relationships, 3 defects", ["inputs", "fault_sequences"]),
P("C33", "Asking a filing changes none of its answers",
  "Whatever is asked of a filing and of its facts, elements, labels, components, networks, nodes, characteristics and errors (getters, look-ups by name, comparisons, "
  "tables in any languages, dictionaries, prints, the validity of calculations), in whatever order and however often, every answer is the one that a "
  "newly opened filing gives; a question that raises an exception raises it again.",
  "all histories of questions over generated filings of every sort", "the tests ask each question once",
  [("Filing", "brel/brel_filing.py"), ("networks", "brel/networks/i_network.py"), ("facts", "brel/brel_fact.py"), ("contexts", "brel/brel_context.py"),
   ("printing", "brel/utils/print_networks.py"), ("translation", "brel/services/translation/translation_service.py"),
   ("look-up", "brel/services/report_element/report_element_service.py")],
  "stateful histories of queries against a second opening that is asked in another order, and a third one that is not asked", "up to 12 questions (24 in thorough) of up to 3 places of a filing",
  ["histories", "inputs"]),
P("C34", "No content of well-formed documents makes the opening fail",
  "Whatever the elements, attributes and texts of a filing's well-formed documents are, opening it gives a filing that answers every question, whose facts and nodes belong to its elements; "
  "a fact element that gives no fact has an error, and facts whose own element, context and unit are sound are read as ever. Only a malformed entry document raises.",
  "all documents near generated filings", "the fixtures are sound or have one of a few defects",
  [("opening", "brel/services/xml/xml_service.py"), ("facts", "brel/parsers/XML/xml_facts_parser.py"), ("inline facts", "brel/parsers/XHMTL/xhtml_parse_facts.py"),
   ("contexts", "brel/parsers/XML/xml_context_parser.py"), ("links", "brel/parsers/XML/networks/xml_extended_link_parser.py"),
   ("elements", "brel/parsers/XML/xml_report_element_parser.py")],
  "structure-aware mutation fuzzing of documents, with invariants over what is read and a comparison with the undamaged filing", "1-4 damages to a filing", ["inputs", "fault_sequences"]),
]

NOT_APPLICABLE = {}
