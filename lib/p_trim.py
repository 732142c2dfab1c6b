"""C19: the trimming semantics against the extended semantics; spec/Trim.tla, MCTrim, TrimTrace."""
import impl, rdflib, owlrl
from rdflib import Dataset, Graph, URIRef
from rdflib.graph import ConjunctiveGraph
from closure import *
import p_closure, p_datatypes, p_meta

HOWS = ["inplace", "dest", "dest+", "dataset", "named", "conjunctive", "convert"]


def build(c):
    """(what is expanded, destination argument, graph that is written, other graphs)"""
    how, inp = c["how"], [tuple(t) for t in c["inp"]]
    if how in ("inplace", "convert"):
        g = impl.build(inp)
        return g, None, g, []
    ds = ConjunctiveGraph() if how == "conjunctive" else Dataset()
    parts = {}
    for i, t in enumerate(inp):
        parts.setdefault(c["split"][i % len(c["split"])], []).append(t)
    if how in ("dest", "dest+"):
        src, dst = ds.get_context(URIRef("urn:g:A")), ds.get_context(URIRef("urn:g:D"))
        for k, ts in parts.items():
            impl.build(ts, dst if how == "dest+" and k == "D" else src)
        return src, dst, dst, [src]
    gs = {k: ds.default_context if k == "" else ds.get_context(URIRef("urn:g:" + k)) for k in ("", "A", "B", "D")}
    for k, ts in parts.items():
        impl.build(ts, gs[k])
    written = gs["D"] if how == "named" else gs[""]
    return ds, URIRef("urn:g:D") if how == "named" else None, written, [g for g in gs.values() if g is not written]


def content(g):
    return sorted({tuple(impl.striple(t)) for t in g})


def one(c, sem):
    src, dest, written, others = build(c)
    before = [content(g) for g in others]
    cls, rdfs = impl.CLASSES[sem]
    if c["how"] == "convert":
        o = impl.convert_options(sem, axioms=c["ax"], daxioms=c["dax"])
        cl = owlrl.return_closure_class(o.owlClosure, o.rdfsClosure, o.owlExtras, o.trimming)
        owlrl.DeductiveClosure(cl, rdfs_closure=o.rdfsClosure, axiomatic_triples=c["ax"], datatype_axioms=c["dax"]).expand(src)
    else:
        owlrl.DeductiveClosure(cls, rdfs_closure=rdfs, axiomatic_triples=c["ax"], datatype_axioms=c["dax"]).expand(src, destination=dest)
    if [content(g) for g in others] != before:
        raise AssertionError("another graph than the destination changed")
    out, msgs = impl.split_errors(written)
    return out, sorted(msgs), sorted({t for ts in before for t in ts})


def run(c):
    ext, trim = ("extrdfs", "trimrdfs") if c["rdfs"] else ("ext", "trim")
    e, em, o = one(c, ext)
    if len(e) > MAXOUT:
        return None
    t, tm, o2 = one(c, trim)
    return dict(ext=e, trim=t, msgs_ext=em, msgs_trim=tm, other=o)


def c19(chk):
    rng = chk.rng("c19")
    lines, st = chk.model("MCTrim", "MCTrim3.cfg" if chk.thorough else "MCTrim.cfg")
    triples = sorted(map(tuple, tagged(lines, "TRIPLE")))
    if len(triples) < 3000:
        raise MachineryError("only %d one-triple graphs" % len(triples))
    cases = []

    def add(kind, inp, how=None, ax=None):
        ax = rng.random() < .15 if ax is None else ax
        dax = rng.random() < .15
        cases.append({"id": "%s%d" % (kind, len(cases)), "inp": sorted({tuple(t) for t in inp}), "rdfs": rng.random() < .5, "ax": ax, "dax": dax, "how": how or rng.choice(["inplace"] * 4 + HOWS),
                      "split": [rng.choice(["", "A", "B", "D"]) for _ in range(7)], "own": []})
    if chk.thorough:
        for t in triples:
            add("one", [t], ax=False)
    else:
        for t in rng.sample(triples, 60):
            add("one", [t], ax=False)
    for i in range(chk.pick(90, 900)):
        add("few", rng.sample(triples, rng.randint(2, 5)))
    for i in range(chk.pick(80, 600)):
        fs = rng.sample(POSITIVE + NEGATIVE + ["cont"], rng.randint(2, 9))
        g = ontology(rng, schema=rng.randint(2, 8), facts=rng.randint(2, 9), feats=fs)
        if rng.random() < .4:
            g += rng.sample(triples, 1)
        add("ont", g)
    for i in range(chk.pick(70, 450)):
        add("dt", p_datatypes.graph(rng, rng.randint(0, 4), rng.randint(0, 3), rng.randint(0, 2), rng.randint(0, 1)))
    for i in range(chk.pick(25, 200)):
        f = counter()
        own = p_meta.facets(rng, f) + (p_meta.facets(rng, f) if rng.random() < .5 else [])
        g = own + [("x:i0", "x:p0", '"%d"^^xsd:integer' % rng.randint(5, 9))] + p_datatypes.graph(rng, rng.randint(0, 2), rng.randint(0, 2), 0, 0)
        add("facet", g)
        cases[-1]["own"] = sorted({t[0] for t in own if t[1] == "owl:onDatatype"})
    for i, how in enumerate(HOWS * chk.pick(2, 10)):
        add("how", p_datatypes.graph(rng, 2, 1, 1, 0) + ontology(rng, schema=5, facts=5, feats=["sco", "dom", "diff", "same", "dw", "svf"]), how=how)
    add("empty", [], "inplace", ax=True)
    add("empty", [], "inplace", ax=False)
    res = pmap(run, cases, cpu=60, chunksize=2)
    todo, by = [], {}
    for c, (st, v) in zip(cases, res):
        if st == "exception":
            chk.violation("%s (%s): %s" % (c["id"], c["how"], v), c)
        elif st != "ok" or v is None:
            chk.cov["too_big"] = chk.cov.get("too_big", 0) + 1
        else:
            todo.append(dict({"id": c["id"], "own": c["own"]}, **v))
            by[c["id"]] = c
    if len(todo) < len(cases) * .8 and not chk.violations:
        raise MachineryError("%d of %d expansions too big" % (len(cases) - len(todo), len(cases)))
    vs = judge_tlc(chk, todo, "TrimTrace", "VERDICT", 800)
    hows, gone = {}, 0
    for t in todo:
        c, v = by[t["id"]], vs[t["id"]]
        hows[c["how"]] = hows.get(c["how"], 0) + 1
        gone += v["gone"]
        what = "%s (%s%s)" % (c["id"], c["how"], ", RDFS" if c["rdfs"] else "")
        for k, text in (("lost", "trimming removed"), ("kept", "trimming left"), ("new", "trimming added")):
            if v[k]:
                chk.violation("%s: %s %s" % (what, text, fmt(sorted(v[k]))), dict(c, verdict=v))
        if v["errors"]:
            chk.violation("%s: error messages %s, without trimming %s" % (what, fmt(t["msgs_trim"]), fmt(t["msgs_ext"])), c)
    chk.cov["traces_validated_against_impl"] = len(todo)
    chk.cov["ways"] = hows
    chk.cov["triples_trimmed"] = gone
    chk.sample(cases[0])
    chk.sample(cases[100])
    chk.assumptions = ["the extended semantics itself is what C05, C07, C09 decide", "RDFLib stores and returns triples faithfully"]
