"""C23  All and only the reachable documents are loaded, in whatever form the filing is given."""
import os
import posixpath
import random
import zipfile
from urllib.parse import quote

from hypothesis import strategies as st

from lib import obs, web, xw
from lib.harness import Violation, expect, expect_eq, under_test

ID = "C23"
QUICK = 4000
THOROUGH = 60000
RULE = ("reference graphs of 2-7 schemas and linkbases (imports, includes, linkbase references, locators, role references, cycles, "
        "several spellings of one reference) over local folders, a stubbed web and a taxonomy package, opened as a file, a folder or a zip; "
        "non-trivial = a document is reached through another document, and another one not at all or through two references")
ASSUMPTIONS = ["what a filing loads is observed by the one element that each schema declares and the one label that each linkbase gives"]

# places: folders of the filing, two web sites, and a package to which the catalog redirects
PLACES = ["", "www.example.com/", "www.example.com/2024.1/", "sp ace/", "http://a.example.com/tax/", "http://a.example.com/tax/sub/", "https://b.example.org/",
          "PKG", "PKGSUB", "PKGWEB"]
LOCAL = 4
PKG_URL = {"PKG": "http://pkg.example.com/2024/", "PKGSUB": "http://pkg.example.com/2024/core/", "PKGWEB": "http://pkg.example.com/web/"}
WEB_DIR = "https://b.example.org/mirror/"
PKG_DIR = {"PKG": "pkg/", "PKGSUB": "other dir/"}
NAMES = ["a", "b", "core", "x-1"]
NS = ["http://example.com/n0", "http://example.com/n1", "http://example.com/n2"]


@st.composite
def _case(draw, tier):
    form = draw(st.sampled_from(["file", "file", "file", "folder", "zip", "zip with folder"]))
    inline = draw(st.integers(0, 3)) == 0
    n = draw(st.integers(2, 7))
    package = form != "file" and draw(st.booleans())
    web_ok = draw(st.booleans())
    places = list(range(LOCAL)) + ([4, 5, 6] if web_ok else []) + ([7, 8] if package else []) + ([9] if package and web_ok else [])
    docs, taken = [], {"i"}
    for k in range(n):
        kind = "schema" if k == 0 else draw(st.sampled_from(["schema", "schema", "linkbase"]))
        place = draw(st.sampled_from(places))
        name = draw(st.sampled_from([x for x in NAMES + [f"d{k}"] + (["é&1"] if place < LOCAL else []) if (place, kind, x) not in taken]))
        taken.add((place, kind, name))
        docs.append({"kind": kind, "place": place, "name": name, "ns": draw(st.integers(0, 2)), "refs": []})
    for k, d in enumerate(docs):
        for t in draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)):
            if d["kind"] == "linkbase" and docs[t]["kind"] == "linkbase":
                continue
            if t == k and d["kind"] == "linkbase":
                continue
            d["refs"].append([t, draw(st.integers(0, 5)), draw(st.integers(0, 2))])
    entry_refs = [[0, draw(st.integers(0, 5)), 0]]
    for t in draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)):
        entry_refs.append([t, draw(st.integers(0, 5)), draw(st.integers(0, 1))])
    return {"form": form, "inline": inline, "place": draw(st.integers(0, 2)), "docs": docs, "refs": entry_refs,
            "facts": draw(st.lists(st.integers(0, n - 1), max_size=2)), "other": draw(st.booleans()), "seed": draw(st.integers(0, 9)),
            "path": draw(st.sampled_from(["absolute", "absolute", "relative", "dotted", "slash"])),
            "overlap": draw(st.booleans())}


def strategy(tier):
    return _case(tier)


def url_of(m, d):
    """The URL or filing-relative path by which the document is known."""
    p = PLACES[d["place"]]
    ext = ".xsd" if d["kind"] == "schema" else ".xml"
    return PKG_URL.get(p, p) + d["name"] + ext


def file_of(m, d):
    """Where the document is stored: a path in the filing, or None for a document on the web."""
    p = PLACES[d["place"]]
    if p.startswith("http") or p == "PKGWEB":
        return None
    ext = ".xsd" if d["kind"] == "schema" else ".xml"
    return PKG_DIR.get(p, p) + d["name"] + ext


def web_address(m, d):
    """The address of a document on the web, once the catalog has redirected it."""
    return url_of(m, d).replace(PKG_URL["PKGWEB"], WEB_DIR)


def spell(m, source_url, target, how):
    """One of the ways to refer to a document from another (None if there is none)."""
    t = url_of(m, target)
    remote_s, remote_t = source_url.startswith("http"), t.startswith("http")
    if remote_t and not (remote_s and source_url.split("/")[:3] == t.split("/")[:3]):
        return t
    if "pkg.example.com" in t and source_url.rsplit("/", 1)[0] != t.rsplit("/", 1)[0]:
        return t  # whether the base is the address before or after the redirection only matters across folders
    if remote_s and not remote_t:
        return None  # a page on the web cannot refer to a local file
    if remote_s and how == 5:
        return t
    base = posixpath.dirname(source_url.split("//", 1)[-1])
    path = t.split("//", 1)[-1]
    rel = posixpath.relpath(path, base or ".")
    if how == 1:
        rel = "./" + rel
    elif how == 2 and base and "pkg.example.com" not in t and not (remote_s and "/" not in base):
        rel = "../" + posixpath.basename(base) + "/" + rel
    elif how == 3:
        rel = "x/../" + rel if remote_s else "./././" + rel
    if how == 4 or remote_s:
        rel = quote(rel)
    return rel


def build(m):
    docs = m["docs"]
    files, pages, reach = {}, {}, {}
    prefixes = {f"n{i}": u for i, u in enumerate(NS)}
    edges = {}

    def element(k):
        return {"name": f"E{k}", "id": f"id_E{k}", "type": "xbrli:stringItemType", "sg": "xbrli:item", "periodType": "duration",
                "nillable": "true"}

    labels = set()
    for k, d in enumerate(docs):
        src = url_of(m, d)
        if d["kind"] == "schema":
            s = {"ns": NS[d["ns"]], "prefix": f"n{d['ns']}", "elements": [element(k)], "imports": [], "includes": [], "linkbaseRefs": [],
                 "roles": [{"uri": f"http://example.com/role/R{k}", "id": f"role{k}", "def": "", "usedOn": []}]}
        else:
            lb = {"roleRefs": [], "links": [{"kind": "label", "role": xw.STD_LINK_ROLE, "locs": [], "resources": [], "arcs": []}]}
        out = edges[k] = []
        for n, (t, how, via) in enumerate(d["refs"]):
            target = docs[t]
            ref = spell(m, src, target, how)
            if ref is None:
                continue
            out.append(t)
            if d["kind"] == "schema" and target["kind"] == "linkbase":
                s["linkbaseRefs"].append(ref)
            elif d["kind"] == "schema":
                if target["ns"] == d["ns"]:
                    s["includes"].append(ref)
                else:
                    s["imports"].append({"ns": NS[target["ns"]], "loc": ref})
            elif via == 2:
                lb["roleRefs"].append({"uri": f"http://example.com/role/R{t}", "href": f"{ref}#role{t}"})
            else:
                l = lb["links"][0]
                l["locs"].append({"href": f"{ref}#id_E{t}", "label": f"l{n}"})
                l["resources"].append({"label": f"r{n}", "role": xw.STD_LABEL, "lang": "en", "text": f"from document {k}"})
                l["arcs"].append({"from": f"l{n}", "to": f"r{n}", "arcrole": xw.ARC_CONCEPT_LABEL})
                labels.add((k, t))
        text = xw.schema_xml(s) if d["kind"] == "schema" else xw.linkbase_xml(lb)
        f = file_of(m, d)
        if f is None:
            pages[web_address(m, d)] = text.encode()
        else:
            files[f] = text
    # the entry document
    entry = PLACES[m["place"]] + ("i.htm" if m["inline"] else "i.xml")
    refs = {"schema": [], "linkbase": []}
    start = []
    for t, how, via in m["refs"]:
        ref = spell(m, entry, docs[t], how)
        start.append(t)
        refs[docs[t]["kind"]].append((ref, via))
    loaded, todo = set(), list(start)
    while todo:
        k = todo.pop()
        if k not in loaded:
            loaded.add(k)
            todo += edges[k]
    if m["form"] != "file":
        local = {k for k, d in enumerate(docs) if file_of(m, d) is not None}
        todo = list(local)
        while todo:
            k = todo.pop()
            if k not in loaded or k in local:
                local.discard(k)
                loaded.add(k)
                todo += [x for x in edges[k] if x not in loaded]
    facts = [k for k in m["facts"] if k in loaded and docs[k]["kind"] == "schema"]
    ctx = [{"id": "c", "scheme": "http://example.com/s", "entity": "E", "period": ["duration", "2023-01-01", "2023-12-31"]}]
    if m["inline"]:
        from lib import ix
        body = [{"ix": "nonNumeric", "a": {"id": f"f{i}", "name": f"n{docs[k]['ns']}:E{k}", "contextRef": "c"}, "c": [f"v{i}"]}
                for i, k in enumerate(facts)]
        files[entry] = ix.page_xml({"ns": prefixes, "refs": [["schema", r] for r, _ in refs["schema"]] + [["linkbase", r] for r, _ in refs["linkbase"]],
                                    "contexts": ctx, "body": [{"el": "p", "c": body}]})
    else:
        by_hint = [r for r, via in refs["schema"][1:] if via]
        inst = {"schemaRefs": [r for i, (r, via) in enumerate(refs["schema"]) if i == 0 or not via],
                "linkbaseRefs": [r for r, _ in refs["linkbase"]], "nsmap": prefixes, "contexts": ctx,
                "facts": [{"concept": f"n{docs[k]['ns']}:E{k}", "ctx": "c", "id": f"f{i}", "value": f"v{i}"} for i, k in enumerate(facts)]}
        text = xw.instance_xml(inst)
        if by_hint:
            hint = " ".join(f"http://example.com/hint {quote(r, safe='/%:')}" for r in by_hint)
            text = text.replace(" xmlns:", f' xsi:schemaLocation="{hint}" xmlns:', 1)
        files[entry] = text
    catalogued = any(PLACES[d["place"]] in PKG_URL for d in docs)
    if catalogued:
        rules = [("http://pkg.example.com/2024/", "../pkg/"), ("http://pkg.example.com/2024/core/", "../other%20dir/" if m["overlap"] else "../other dir/"),
                 (PKG_URL["PKGWEB"], WEB_DIR)]
        if m["seed"] % 2:
            rules.reverse()
        files["META-INF/catalog.xml"] = (
            '<?xml version="1.0"?><catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">'
            + "".join(f'<rewriteURI uriStartString="{a}" rewritePrefix="{b}"/>' for a, b in rules) + "</catalog>")
    if m["other"]:
        files["notes.txt"] = "not a part of the filing"
        files["sub/logo.jpg"] = b"\xff\xd8\xff"
    return files, pages, entry, loaded, labels, facts, edges, start


def open_form(m, files, entry, d):
    order = list(files)
    random.Random(m["seed"]).shuffle(order)
    top = os.path.join(d, "filing")
    if m["form"].startswith("zip"):
        os.makedirs(top)
        path = os.path.join(top, "f.zip")
        with zipfile.ZipFile(path, "w") as z:
            for f in order:
                z.writestr(("the folder/" if m["form"] == "zip with folder" else "") + f, files[f])
    else:
        obs.write_files(top, {f: files[f] for f in order})
        path = os.path.join(top, entry) if m["form"] == "file" else top
    old = os.getcwd()
    try:
        if m["path"] == "relative":
            os.chdir(d)
            path = os.path.relpath(path, d)
        elif m["path"] == "dotted":
            path = os.path.join(d, "filing", "..", os.path.relpath(path, d))
        elif m["path"] == "slash" and m["form"] == "folder":
            path += "/"
        return obs.open_path(path, f"opening a filing given as a {m['form']} ({m['path']} path)")
    finally:
        os.chdir(old)


def check(m):
    files, pages, entry, loaded, labels, facts, edges, start = build(m)
    docs = m["docs"]
    d = obs.case_dir()
    with web.serving(web.Web(pages)) as w:
        filing = open_form(m, files, entry, d)
        obs.expect_no_errors(filing, f"a sound filing given as a {m['form']}")
        elements = obs.elements_view(filing)
        got_facts = obs.facts_view(filing)
    want = {}
    for k in loaded:
        if docs[k]["kind"] == "schema":
            want["{%s}E%d" % (NS[docs[k]["ns"]], k)] = sorted(
                [f"from document {j}", "en", xw.STD_LABEL] for j, t in labels if t == k and j in loaded)
    got = {e["name"]: e["labels"] for e in elements}
    expect_eq(sorted(e["name"] for e in elements), sorted(want), f"the elements of the schemas reached from {entry}")
    expect_eq(got, want, "the labels of the linkbases reached")
    expect_eq(sorted((f["id"], f["value"], f["concept"]) for f in got_facts),
              sorted((f"f{i}", f"v{i}", "{%s}E%d" % (NS[docs[k]["ns"]], k)) for i, k in enumerate(facts)), "facts")
    want_requests = sorted(web_address(m, docs[k]) for k in loaded if file_of(m, docs[k]) is None)
    expect_eq(sorted(w.requests), want_requests, "the documents requested from the web")
    # classes
    out = {m["form"], "inline" if m["inline"] else "XML", m["path"] + " path"}
    count = {}
    for k in loaded:
        for t in edges[k]:
            count[t] = count.get(t, 0) + 1
    if any(k not in start for k in loaded):
        out.add("indirect")
    if len(loaded) < len(docs):
        out.add("unreachable")
    if any(c > 1 for c in count.values()):
        out.add("two references")
    if any(k in edges[t] for k in loaded for t in edges[k]):
        out.add("cycle")
    if want_requests:
        out.add("web")
    if any(PLACES[docs[k]["place"]] in PKG_DIR for k in loaded):
        out.add("package")
    if any(PLACES[docs[k]["place"]] == "PKGWEB" for k in loaded):
        out.add("redirected to the web")
    names = [docs[k]["name"] + docs[k]["kind"] for k in loaded]
    if len(set(names)) < len(names):
        out.add("same file name")
    if any(docs[k]["ns"] == docs[t]["ns"] and docs[k]["kind"] == docs[t]["kind"] == "schema" for k in loaded for t in edges[k]):
        out.add("include")
    return out


def nontrivial(m, labels):
    return "indirect" in labels and ("unreachable" in labels or "two references" in labels)


MUST_HIT = ["file", "folder", "zip", "zip with folder", "inline", "XML", "indirect", "unreachable", "two references", "cycle", "web",
            "package", "same file name", "include", "relative path", "dotted path", "slash path", "redirected to the web"]
