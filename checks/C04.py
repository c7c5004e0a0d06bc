"""C04  A fact carries exactly the dimensions of its context."""
from hypothesis import strategies as st

from lib import gen, obs
from lib.harness import expect, expect_eq, under_test
from brel.characteristics import Aspect, ExplicitDimensionCharacteristic

ID = "C04"
QUICK = 8000
THOROUGH = 60000
RULE = ("XML filings with explicit and typed dimensions in segment or scenario over 1-2 namespaces, instance prefixes partly other than the schemas'; "
        "non-trivial = at least two facts and one dimension used by a fact")
MUST_HIT = ["explicit", "typed", "scenario", "segment and scenario", "other prefix", "same dimension name, two namespaces",
            "fact without dimension", "typed markup", "blank value"]


@st.composite
def _case(draw, tier):
    m = draw(gen.fact_filing(max_facts=8, ids="always", own_ctx=True, max_ctx=5, big=True))
    for f in m["facts"]:
        f["nil"] = False
    for c in m["contexts"]:
        for d in c["dims"]:
            if d["kind"] == "typed" and draw(st.integers(0, 9)) == 0:
                d["text"] = draw(st.sampled_from([" ", "   ", "\n", "\t ", "\u00a0", "0"]))
        c["where"] = [draw(st.sampled_from(["segment", "segment", "scenario"])) for _ in c["dims"]]
        c["pad"] = draw(st.sampled_from(["", "", " ", "\n  "]))
    # near misses: typed members that differ from another one a little
    texts = [d for c in m["contexts"] for d in c["dims"] if d["kind"] == "typed"]
    for d in texts[1:]:
        if draw(st.booleans()):
            t = draw(st.sampled_from(texts))["text"]
            d["text"] = draw(st.sampled_from([t + " ", " " + t, t.swapcase(), "0" + t, t[:-1], t + t, t + "x"])) or "0"
    if len(m["schemas"]) == 2 and draw(st.booleans()):
        # the same dimension and member names in both namespaces, both used
        for k in range(2):
            m["schemas"][k]["elements"] += [
                {"name": "TwinAxis", "id": f"twin{k}", "type": "xbrli:stringItemType", "sg": "xbrldt:dimensionItem",
                 "periodType": "duration", "abstract": "true"},
                {"name": "TwinMember", "id": f"twinm{k}", "type": "nonnum:domainItemType", "sg": "xbrli:item",
                 "periodType": "duration", "abstract": "true"}]
        idx = [[k, [e["name"] for e in m["schemas"][k]["elements"]].index("TwinAxis")] for k in range(2)]
        mem = [[k, i + 1] for k, i in idx]
        for c in m["contexts"]:
            for k in range(2):
                if draw(st.booleans()):
                    c["dims"].append({"kind": "explicit", "dim": idx[k], "member": draw(st.sampled_from(mem))})
                    c["where"].append(draw(st.sampled_from(["segment", "scenario"])))
    return m


def strategy(tier):
    return _case(tier)


def _context(m, c, px):
    from lib.xw import esc, qa, period_xml
    parts = {"segment": [], "scenario": []}
    for d, where in zip(c["dims"], c["where"]):
        q = gen.dts_qname(m, d["dim"])
        if d["kind"] == "explicit":
            parts[where].append(f'<xbrldi:explicitMember dimension={qa(q)}>{c["pad"]}{gen.dts_qname(m, d["member"])}'
                                f'{c["pad"]}</xbrldi:explicitMember>')
        else:
            dom = f'{m["iprefixes"][d["dim"][0]]}:domain{d["dim"][0]}'
            parts[where].append(f'<xbrldi:typedMember dimension={qa(q)}><{dom}>{esc(d["text"])}</{dom}></xbrldi:typedMember>')
    seg = f"<{px}segment>{''.join(parts['segment'])}</{px}segment>" if parts["segment"] else ""
    sce = f"<{px}scenario>{''.join(parts['scenario'])}</{px}scenario>" if parts["scenario"] else ""
    return (f'<{px}context id={qa(c["id"])}><{px}entity><{px}identifier scheme={qa(c["scheme"])}>{esc(c["entity"])}'
            f'</{px}identifier>{seg}</{px}entity>{period_xml(c["period"], px)}{sce}</{px}context>\n')


def check(m):
    from lib import xw
    labels = set()
    files = gen.files_of(m)
    inst = gen.instance_of(m)
    px = "" if m["default_xbrli"] else "xbrli:"
    inst["contexts"] = []
    inst["raw"] = "".join(_context(m, c, px) for c in m["contexts"])
    files["i.xml"] = xw.instance_xml(inst)
    filing = obs.open_files(files, "i.xml")
    with under_test("reading the dimensions"):
        facts = {f.get_id(): f for f in filing.get_all_facts()}
        want = {f["id"]: f for f in m["facts"]}
        expect_eq(sorted(facts), sorted(want), "facts")
        aspects = {}
        for k, w in want.items():
            f = facts[k]
            c = m["contexts"][w["ctx"]]
            expect_eq(obs.dim_view(f), gen.expected_fact(m, w)["dims"], f"dimensions of fact {k}")
            core = [a.get_name() for a in f.get_aspects() if a.is_core()]
            expect_eq(sorted(core), sorted(["concept", "entity", "period"] + (["unit"] if w["unit"] is not None else [])),
                      f"core aspects of fact {k}")
            expect_eq(f.is_core(), not c["dims"], f"is_core of fact {k}")
            expect_eq(f.get_context().has_noncore_dimensions(), bool(c["dims"]), "has_noncore_dimensions")
            expect_eq([str(a) for a in f.get_context().get_aspects()], [str(a) for a in f.get_aspects()],
                      "aspects of the fact and of its context")
            own = set()
            for a in f.get_aspects():
                ch = f.get_characteristic(a)
                expect(f.get_context().has_characteristic(a), f"aspect {a} is listed, has_characteristic denies it")
                expect(ch is not None and ch.get_aspect() == a, f"characteristic of aspect {a}")
                expect_eq(f.get_context().get_characteristic_as_str(a), str(ch.get_value()), f"aspect {a} as text")
                if not a.is_core():
                    aspects[obs.clark(ch.get_dimension().get_name())] = a
                    own.add(obs.clark(ch.get_dimension().get_name()))
                    if isinstance(ch, ExplicitDimensionCharacteristic):
                        expect(ch.get_value() == ch.get_member(), "value of an explicit dimension")
            expect_eq(len(own), len(c["dims"]), "one aspect per dimension")
            for name, a in aspects.items():
                if name not in own:
                    expect(f.get_characteristic(a) is None, f"fact {k} has a characteristic for {name}, which it lacks")
                    expect_eq(f.get_context().get_characteristic_as_str(a), "", f"text of the missing aspect {name}")
                    expect(not f.get_context().has_characteristic(a), f"has_characteristic({name})")
        expect_eq(len(set(aspects.values())), len(aspects), "different dimensions share an aspect")
        expect_eq(sorted(f.get_id() for f in filing.get_all_core_facts()),
                  sorted(k for k, w in want.items() if not m["contexts"][w["ctx"]]["dims"]), "core facts")
        # two facts agree on an aspect exactly if the values are the same
        fl = list(facts.values())
        for f in fl:
            for g in fl:
                for name, a in aspects.items():
                    x, y = f.get_characteristic(a), g.get_characteristic(a)
                    if x is None or y is None:
                        continue
                    vx = [d for d in obs.dim_view(f) if d[1] == name]
                    vy = [d for d in obs.dim_view(g) if d[1] == name]
                    expect_eq(x == y, vx == vy, f"equality of the characteristics {vx} and {vy}")
    obs.expect_no_errors(filing)
    used = [m["contexts"][f["ctx"]] for f in m["facts"]]
    for c in used:
        labels |= {d["kind"] for d in c["dims"]}
        if "scenario" in c["where"]:
            labels.add("scenario")
            if "segment" in c["where"]:
                labels.add("segment and scenario")
        if not c["dims"]:
            labels.add("fact without dimension")
        if sum(m["schemas"][d["dim"][0]]["elements"][d["dim"][1]]["name"] == "TwinAxis" for d in c["dims"]) == 2:
            labels.add("same dimension name, two namespaces")
        if any(d["kind"] == "typed" and set(d["text"]) & set("<>&") for d in c["dims"]):
            labels.add("typed markup")
        if any(d["kind"] == "typed" and not d["text"].strip() for d in c["dims"]):
            labels.add("blank value")
    if labels and m["iprefixes"] != [s["prefix"] for s in m["schemas"]]:
        labels.add("other prefix")
    return labels


def nontrivial(m, labels):
    return len(m["facts"]) >= 2 and bool(labels & {"explicit", "typed"})
