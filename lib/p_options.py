"""C10 axiom options, C12 survival of the input, C13 datasets and destinations.  All judged by spec/ClosureTrace.tla."""
import re, zlib
import impl, rdflib, owlrl
from closure import *
import p_closure, p_datatypes
from p_closure import OWL, RDFS, SELF, report, any_, FOUR, VALUES, vlit

SEMS = ("rdfs", "owl", "comb", "ext", "extrdfs")


# ------------------------------------------------------------------------------------------------ C10
def run_api(c):
    """The options through each entry point that takes them."""
    g = impl.build(c["inp"])
    cls, rdfs = impl.CLASSES[c["sem"]]
    ax, dax, api = c["ax"], c["dax"], c["api"]
    if api == "keywords":
        owlrl.DeductiveClosure(cls, rdfs_closure=rdfs, axiomatic_triples=ax, datatype_axioms=dax).expand(g)
    elif api == "positional":
        owlrl.DeductiveClosure(cls, True, rdfs, ax, dax).expand(g)
    elif api == "given":        # only what differs from the defaults
        owlrl.DeductiveClosure(cls, **{k: True for k, v in (("rdfs_closure", rdfs), ("axiomatic_triples", ax), ("datatype_axioms", dax)) if v}).expand(g)
    elif api == "class":        # the semantics itself (the conversions and registries are DeductiveClosure's business)
        cls(g, ax, dax, rdfs).closure()
    elif api == "twice":        # one closure object, several graphs
        d = owlrl.DeductiveClosure(cls, rdfs_closure=rdfs, axiomatic_triples=ax, datatype_axioms=dax)
        d.expand(impl.build([("x:other", "rdf:_77", "x:o")]))
        d.expand(g)
    return impl.split_errors(g)


def container_graph(rng):
    idx = rng.sample([1, 2, 3, 4, 7, 9, 10, 11, 19, 20, 99, 100, 101, 1000, 123456], rng.choice([0, 1, 1, 2, 3, 4]))
    g = [("x:bag", "rdf:_%d" % i, rng.choice(["x:m", "x:n", "_:b", '"7"^^xsd:int'])) for i in idx]
    g += [("x:bag", p, "x:m") for p in rng.sample(["x:_1", "x:_5", "rdf:_0", "rdf:_01", "rdf:_1a", "rdf:_", "rdf:__3", "rdf:_-2"], rng.choice([0, 0, 1, 2]))]
    if rng.random() < .5:
        g.append(("x:bag", "rdf:type", rng.choice(["rdf:Bag", "rdf:Seq", "rdfs:Container"])))
    if rng.random() < .4:
        g.append(("x:r", "rdfs:label", rng.choice(sorted(VALUES) + p_closure.ILL)))
    return g


STRANGE = ['"1"^^x:dt', '"01"^^x:dt', '"1"^^x:other', '"1"^^xsd:duration', '"P1Y"^^xsd:duration', '"--12"^^xsd:gMonth', '"x y"^^x:dt', '"same"', '"same"@en', '""^^x:dt']


def c10(chk):
    rng = chk.rng("c10")
    apis = ["keywords", "positional", "given", "class", "twice"]
    cases = []
    n = 0
    for sem in SEMS:
        for ax, dax in FOUR:
            for api in apis if not chk.thorough else apis * 3:
                if api == "class" and "ext" in sem:
                    continue
                g = container_graph(rng)
                cases.append(case("a%d" % n, g, sem, ax, dax, api=api, facts=vlit))
                n += 1
    for i in range(chk.pick(40, 500)):          # the RDFS semantics is cheap to judge
        cases.append(case("c%d" % i, container_graph(rng), rng.choice(["rdfs", "rdfs", "rdfs", "comb"] if chk.thorough else ["rdfs"]),
                          rng.random() < .8, rng.random() < .3, api=rng.choice(apis[:3]), facts=vlit))
    for i in range(chk.pick(12, 200)):
        g = ontology(rng, schema=rng.randint(0, 4), facts=rng.randint(0, 5), feats=p_closure.POSITIVE + ["cont"])
        ax, dax = rng.choice(FOUR)
        cases.append(case("r%d" % i, g, rng.choice(SEMS), ax, dax, api=rng.choice(apis[:3])))
    for i in range(chk.pick(12, 150)):          # axioms about datatypes meet typed literals
        g = p_datatypes.graph(rng, rng.randint(1, 3), rng.randint(0, 1), 0, 0)
        cases.append(case("d%d" % i, g, rng.choice(("rdfs", "rdfs", "owl")), rng.random() < .3, True, api=rng.choice(apis[:3]), facts=p_datatypes.dlit))
    for i in range(chk.pick(4, 40)):            # ... and literals of datatypes that no semantics knows
        for sem in SEMS:
            for ax, dax in FOUR if sem not in ("ext", "owl") else FOUR[-1:]:
                g = [("x:i%d" % rng.randint(0, 2), "x:p%d" % rng.randint(0, 1), l) for l in rng.sample(STRANGE, rng.randint(1, 3))]
                g += ontology(rng, schema=1, facts=1, feats=["spo", "dom", "sco"], lits=False)
                cases.append(case("u%d-%s%d%d" % (i, sem, ax, dax), g, sem, ax, dax, api=rng.choice(apis[:3]), facts=olit))
    cases.append(case("empty-rdfs", [], "rdfs", True, True, api="keywords"))
    cases.append(case("empty-owl", [], "owl", True, True, api="keywords"))
    report(chk, validate(chk, cases, runner=run_api), OWL | RDFS | SELF, onetime=("axioms", "daxioms", "litcopy"), extra=any_, lost=True)


# ------------------------------------------------------------------------------------------------ C12
def odd_literals():
    out = []
    for l in ['"01"^^xsd:integer', '"+1"^^xsd:int', '"-0"^^xsd:integer', '"1.0"^^xsd:decimal', '"1.50"^^xsd:decimal', '".5"^^xsd:decimal', '"1E0"^^xsd:double', '"1e0"^^xsd:double',
              '"INF"^^xsd:float', '"NaN"^^xsd:double', '"0a"^^xsd:hexBinary', '"0A"^^xsd:hexBinary', '"AQ=="^^xsd:base64Binary', '"1"^^xsd:boolean', '"true"^^xsd:boolean',
              '"2000-01-01T24:00:00Z"^^xsd:dateTime', '"2000-01-02T00:00:00Z"^^xsd:dateTime', '"2000-01-01T00:00:00.500Z"^^xsd:dateTime', '"2000-01-01"^^xsd:date', '"12:00:00Z"^^xsd:time',
              '"abc"^^xsd:int', '"abc"^^xsd:integer', '"x y"^^x:dt', '""', '" sp "', '"a\\"q"', '"a\\\\b"', '"line\\nbreak\\ttab"', '"\\u00e9\\u4e2d"', '"en"@en', '"en"@en-GB', '"<a/>"^^rdf:XMLLiteral',
              '"<b/>"^^rdf:XMLLiteral', '"text@en"^^rdf:PlainLiteral', '"same"', '"same"^^xsd:string', '"same"@en', '"same"@fr', '"1/2"^^owl:rational', '"P1Y"^^xsd:duration', '"--12"^^xsd:gMonth']:
        out.append(l)
    return out


def olit(t):
    """Facts of an odd literal: only what the rules in these inputs look at (its datatype is that of a literal with no judged value)."""
    f = p_datatypes.dlit(t) if t[t.rindex('"') + 1:] != "" and not t[t.rindex('"') + 1:].startswith("@") else {"t": t, "dt": "", "ok": True, "num": "-", "val": ""}
    if f["dt"] in ("owl:rational",):
        f["ok"] = True
    return f


def generalised(rng, i):
    """Some properties are blank nodes or literals."""
    feats = ["spo", "eqp", "dom", "rng", "inv", "sym", "trp", "fp", "ifp", "chain", "key", "svf", "avf", "hv", "maxc", "same", "samep", "self", "sco"]
    g = ontology(rng, schema=rng.randint(3, 8), facts=rng.randint(2, 8), feats=rng.sample(feats, rng.randint(2, 6)), lits=rng.random() < .4)
    how = {"x:p%d" % j: rng.choice(["x:p%d" % j, "_:p%d" % j, "_:p%d" % j, "lit"]) for j in range(4)}
    L = '"prop"'
    out = set()
    for s, p, o in g:
        s2 = how.get(s, s)
        p2 = how.get(p, p)
        o2 = how.get(o, o)
        out.add((s if s2 == "lit" else s2, p if p2 == "lit" else p2, L if o2 == "lit" else o2))
    if rng.random() < .5:
        out.add(("x:p0", rng.choice(["owl:sameAs", "owl:inverseOf", "rdfs:subPropertyOf", "owl:equivalentProperty"]), rng.choice(["_:p1", "_:q", L])))
    return sorted(out)


def c12(chk):
    rng = chk.rng("c12")
    cases = []
    for i in range(chk.pick(200, 2500)):
        cases.append(case("g%d" % i, generalised(rng, i), rng.choice(["owl"] * 5 + ["rdfs", "comb", "ext", "extrdfs"])))
    odd = sorted({impl.tostr(impl.toterm(l)) for l in odd_literals()})
    for i in range(chk.pick(100, 1000)):
        ls = rng.sample(odd, rng.randint(2, 8))
        g = [(rng.choice(["x:i0", "x:i1", "_:i0"]), rng.choice(["x:p0", "x:p1", "_:p"]), l) for l in ls]
        g += ontology(rng, schema=rng.randint(0, 3), facts=2, feats=["spo", "dom", "inv", "fp", "ifp", "same", "eqp"], lits=False)
        ax, dax = rng.choice([(False, False)] * 4 + [(True, False), (False, True)])
        cases.append(case("l%d" % i, g, rng.choice(["owl", "rdfs", "rdfs", "comb", "ext", "extrdfs"]), ax, dax, facts=olit))
    for i, (k, n) in enumerate([(0, 5), (2, 6), (7, 5)]):      # a blank-node property that gets its role only late
        g = p_closure.deep(rng, n, k) + [("x:C%d" % n, "rdfs:subClassOf", "_:h"), ("_:h", "owl:onProperty", "_:bp"), ("_:h", "owl:hasValue", "x:v"),
                                         ("_:bp", "rdfs:subPropertyOf", "x:up"), ("x:a%d" % n, "rdf:type", "x:C%d" % n), ("x:s1", "rdf:type", "x:C%d" % n)]
        cases.append(case("d%d" % i, g))
    for i, n in enumerate(chk.pick([150], [150, 300])):     # many blank nodes that are properties
        g = [("_:w%d" % j, "rdfs:subPropertyOf", "x:w") for j in range(n)] + [("x:s%d" % j, "x:p%d" % j, "x:o") for j in range(n)] + \
            [("x:p%d" % j, "rdfs:subPropertyOf", "_:w%d" % j) for j in range(n)]
        cases.append(case("w%d" % i, g))
        cases.append(case("x%d" % i, g, "ext" if i else "comb"))
    res = validate(chk, cases)
    report(chk, res, OWL | RDFS | SELF, lost=True, illegal=True)
    chk.cov["inputs_with_blank_node_predicates"] = sum(1 for c in cases if any(t[1].startswith("_:") for t in c["inp"]))


# ------------------------------------------------------------------------------------------------ C13
from rdflib import Dataset, Graph, URIRef, BNode
from rdflib.graph import ConjunctiveGraph

IRI = {"": None, "A": URIRef("urn:g:A"), "B": URIRef("urn:g:B"), "D": URIRef("urn:g:D"), "_": BNode("gb")}
NAME = {v: k for k, v in IRI.items()}


def contents(ds):
    """Every graph of the store, as it is."""
    store = ds.store
    out = {}
    for ctx in store.contexts():
        name = ctx.identifier
        k = "" if name == ds.default_context.identifier else NAME.get(name, "other " + str(name))
        ts = sorted({tuple(impl.striple(t)) for t, _ in store.triples((None, None, None), ctx)})
        if ts:
            out[k] = ts
    return out


def as_name(c, n):
    return n if isinstance(n, BNode) else c["as"](n)


def ds_run(c):
    ds = Dataset() if c["flavour"] == "dataset" else ConjunctiveGraph()
    if c["union"] is not None and c["flavour"] == "dataset":
        ds.default_union = c["union"]
    graph = lambda n: ds.default_context if n == "" else ds.get_context(IRI[n])
    for b in c["graphs"]:
        impl.build(b["ts"], graph(b["name"]))
    before = contents(ds)
    cls, rdfs = impl.CLASSES[c["sem"]]
    src = ds if c["source"]["kind"] == "dataset" else graph(c["source"]["name"])
    d = c["dest"]
    dest = {"none": lambda: None, "name": lambda: as_name(c, IRI[d["name"]] or ds.default_context.identifier),
            "graph": lambda: graph(d["name"]), "foreign": lambda: Graph()}[d["kind"]]()
    other = dest if d["kind"] == "foreign" else None
    try:
        owlrl.DeductiveClosure(cls, rdfs_closure=rdfs, axiomatic_triples=c["ax"], datatype_axioms=c["dax"]).expand(src, destination=dest)
        outcome = "ok"
    except ValueError as e:
        outcome = "ValueError"
    after = contents(ds)
    target = d["name"] if d["kind"] != "none" else "" if c["source"]["kind"] == "dataset" else c["source"]["name"]
    msgs = []
    if target in after:       # error nodes
        g = impl.build(after[target])
        after[target], msgs = impl.split_errors(g)
    if other is not None and len(other):
        after["foreign"] = [("x:written", "x:to", "x:foreign")]
    return before, after, outcome, msgs


def ds_out(c):
    before, after, outcome, msgs = ds_run(c)
    reads = set(before) | set(after) if c["source"]["kind"] == "dataset" else {c["source"]["name"], c["dest"]["name"] if c["dest"]["kind"] != "none" else c["source"]["name"]}
    out = sorted({t for n in reads for t in after.get(n, [])})
    return out, msgs, [{"name": k, "ts": v} for k, v in before.items()], [{"name": k, "ts": v} for k, v in after.items()], outcome


def distribute(rng, triples, names, dup=.1):
    gs = {n: set() for n in names}
    mode = rng.random()
    for t in triples:
        n = rng.choice(names) if mode < .8 else names[zlib.crc32(t[1].encode()) % len(names)]
        gs[n].add(t)
        if rng.random() < dup:
            gs[rng.choice(names)].add(t)
    return gs


def ds_case(cid, rng, triples, sem, ax=False, dax=False, facts=None, rules=None):
    names = rng.sample(["", "A", "B", "_"], rng.choice([1, 2, 2, 3, 3, 4, 4]))
    kind = rng.choice(["dataset", "dataset", "dataset", "graph"])
    gs = distribute(rng, triples, names)
    dk = rng.choice(["none", "name", "graph", "graph", "name", "foreign"] if rng.random() < .5 else ["none", "name", "graph"])
    dn = rng.choice(["D", "D", rng.choice(names), ""])
    source = {"kind": kind, "name": rng.choice(names) if kind == "graph" else ""}
    if dk == "graph" and kind == "graph" and dn not in gs and rng.random() < .5:
        gs[dn] = {t for t in rng.sample(sorted(triples), min(2, len(triples))) if t[1] not in ("rdf:first", "rdf:rest")}       # the destination has content already
    if dk in ("none", "foreign"):
        dn = ""
    if kind == "graph":
        reads = {source["name"], dn if dk == "graph" else source["name"]}
        if rng.random() < .6:          # mostly all premises are in the source
            gs[source["name"]] |= set(triples)
        gs[source["name"]] |= {t for t in triples if t[1] in ("rdf:first", "rdf:rest")}       # (lists are well-formed)
    else:
        reads = set(gs)
    inp = set().union(*(gs.get(n, set()) for n in reads))
    c = case(cid, inp, sem, ax, dax, facts, rules=rules)
    c.update(source=source, dest={"kind": dk, "name": dn}, graphs=[{"name": n, "ts": sorted(ts)} for n, ts in gs.items()],
             union=rng.choice([True, False, None]), flavour=rng.choice(["dataset", "dataset", "conjunctive"]))
    return c


def ds_runner(c):
    c = dict(c)
    c["as"] = (lambda x: str(x)) if c["id"].endswith("s") else (lambda x: URIRef(x))
    return ds_out(c)


def c13(chk):
    rng = chk.rng("c13")
    cases = []
    ms = [m for m in micro(chk, OWL | RDFS | SELF) if not m["drop"]]
    rng.shuffle(ms)
    N = chk.pick(40, 260)
    k = 0
    for i in range(N):          # the premises of rule instances, spread over graphs
        sem = rng.choice(["owl"] * 4 + ["rdfs", "rdfs", "comb", "ext", "extrdfs"])
        mine = [m for m in ms if m["rule"] in (RDFS if sem == "rdfs" else OWL if sem == "owl" else OWL | RDFS | SELF)]
        items = []
        for j in range(8):
            k += 1
            items += concretise(mine[k % len(mine)], rng.choice(["iri", "bnode"]), j)[0]
        cases.append(ds_case("m%d" % i + "s" * (i % 2), rng, sorted(set(items)), sem))
    for i in range(chk.pick(130, 1500)):
        fs = rng.sample(POS, rng.randint(2, 8))
        g = ontology(rng, schema=rng.randint(2, 6), facts=rng.randint(2, 8), feats=fs)
        if rng.random() < .3:
            g += [("x:i0", "_:bp", "x:i1"), ("_:bp", "rdfs:subPropertyOf", "x:p0")]
        ax, dax = rng.choice([(False, False)] * 8 + [(True, False), (False, True), (True, True)])
        cases.append(ds_case("r%d" % i + "s" * (i % 2), rng, sorted(set(g)), rng.choice(["owl"] * 5 + ["rdfs", "rdfs", "comb", "ext", "extrdfs"]), ax, dax, rules=fs))
    for i, (kk, n) in enumerate(chk.pick([(0, 8), (1, 8), (2, 6), (3, 6), (4, 5)], p_closure.DEEPS_T)):      # several cycles, the schema and the facts apart
        cases.append(ds_case("d%d" % i + "s" * (i % 2), rng, sorted(set(p_closure.deep(rng, n, kk))), "owl"))
    res = pmap(ds_runner, cases, cpu=60, chunksize=2)
    todo, info = [], {}
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            if st == "exception":
                chk.violation("expansion of %s (%s, destination %s) failed: %s" % (c["id"], c["source"], c["dest"], v), describe(c))
            continue
        out, msgs, before, after, outcome = v
        if len(out) <= MAXOUT:
            todo.append(dict(c, out=out, before=before, after=after, outcome=outcome))
            info[c["id"]] = msgs
    todo.sort(key=lambda c: -len(c["out"]))
    verdicts = judge_tlc(chk, todo, "DatasetTrace", "VERDICT", 800)
    results = []
    stats = {}
    for c in todo:
        v = verdicts[c["id"]]
        key = "%s to %s%s" % (c["source"]["kind"], c["dest"]["kind"], ", refused" if v["refused"] else "")
        stats[key] = stats.get(key, 0) + 1
        what = "%s %s (%s) into %s %s" % (c["id"], c["source"], c["sem"], c["dest"]["kind"], c["dest"]["name"])
        if v["refused"]:
            if v["outcome"] != "ValueError":
                chk.violation("%s: not refused" % what, describe(c))
            if v["changed"]:
                chk.violation("%s: refused, but changed graphs %s" % (what, v["changed"]), describe(c))
            continue
        if not v["input"]:
            raise MachineryError("case %s is not what was run" % c["id"])
        if v["outcome"] != "ok":
            chk.violation("%s: raised %s" % (what, v["outcome"]), describe(c))
            continue
        if v["changed"]:
            chk.violation("%s: changed %s" % (what, v["changed"]), dict(describe(c), graphs=c["graphs"], after=c["after"]))
        if v["moved"]:
            chk.violation("%s: the destination lost %s" % (what, fmt(v["moved"])), dict(describe(c), graphs=c["graphs"]))
        results.append((c, v, info[c["id"]], None))
    chk.cov["traces_validated_against_impl"] = len(todo)
    chk.cov["kinds"] = stats
    report(chk, results, OWL | RDFS | SELF, onetime=("axioms", "daxioms", "binding", "declared", "littype", "restype", "litcopy", "disjoint"), extra=any_, lost=True, illegal=True)


POS = p_closure.POSITIVE + ["cont"]
