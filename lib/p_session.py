"""C14, C15: histories of calls in one process (spec/Session.tla).  TLC enumerates the histories, every history is
run in a process of its own, and TLC validates what was recorded."""
import copy, hashlib, os, signal, pickle, struct, tempfile, shutil
import impl, rdflib, owlrl
from rdflib import Literal, Graph, Dataset, URIRef
from closure import *
import p_closure, p_meta

XSD = "http://www.w3.org/2001/XMLSchema#"
OWN, NMT = URIRef("urn:x#mydt"), URIRef(XSD + "NMTOKEN")
PROBES = [("boolean", "TRUE"), ("boolean", "1"), ("integer", " 1_0"), ("int", "99999999999"), ("byte", "300"), ("decimal", "1e1"), ("hexBinary", "0G"), ("hexBinary", "0a"),
          ("date", "2000-01-01Z"), ("time", "12:00:00"), ("unsignedByte", "-1"), ("float", "infinity"), ("anyURI", "http://a"), ("gYear", "2000"), ("dateTime", "2000-01-01T24:00:00Z"),
          ("Name", "1a"), ("language", "english-language"), ("dateTimeStamp", "2000-01-01T00:00:00"), ("NCName", "a:b"), ("gMonthDay", "--02-30")]
STRAY = [URIRef("http://www.w3.org/2002/07/owl#rational"), URIRef("urn:x#F"), URIRef("urn:x#G")]


def probe():
    """The conversions as an application sees them."""
    out = []
    for d, l in PROBES:
        v = Literal(l, datatype=URIRef(XSD + d), normalize=False).value
        out.append("%s %r" % (type(v).__name__, v.isoformat() if hasattr(v, "isoformat") else v))
    own = Literal("v", datatype=OWN).value == "own v"
    n = [Literal(l, datatype=NMT, normalize=False).value for l in ("v", "a b")]
    nmt = "own" if n == ["own v", "own a b"] else "improved" if n == ["v", None] and NMT in rdflib.term._toPythonMapping else "none" if n == [None, None] else "other %r" % n
    stray = [str(u) for u in STRAY if Literal("1/2", datatype=u).value is not None or u in rdflib.term._toPythonMapping]
    return ("\n".join(out), own, nmt, stray)


def classify(p, refs, during):
    std = refs.get(p[0], "other: " + p[0])
    if p[3] and not during:
        std = "conversions of other datatypes left behind: %s" % p[3]
    return {"std": std, "own": p[1], "nmt": p[2]}


def isolated(func, arg):
    """func(arg) in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 120)
            os.close(r)
            try:
                out = ("ok", func(arg))
            except BaseException as e:
                out = ("error", repr(e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("process died")
    st, v = pickle.loads(data)
    if st != "ok":
        raise RuntimeError(v)
    return v


class Stop(Exception):
    pass


def observed(cls, fail, seen):
    """The closure class with probes in its phases, and a failure in one of them."""
    def hook(name):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            if name != "rules" or seen.setdefault("rules", 0) < 3:
                seen["rules"] = seen.get("rules", 0) + (name == "rules")
                seen.setdefault("probes", []).append(probe())
            if fail == name and not (name == "rules" and a[1] < 2):
                raise Stop(name)
            if fail == "interrupt" and name == "rules":
                raise KeyboardInterrupt()
            r = orig(self, *a, **k)
            if fail == "after " + name:
                raise Stop(name)
            return r
        return f
    return type("Observed" + cls.__name__, (cls,), {n: hook(n) for n in ("__init__", "pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "rules", "post_process")})


FAILS = ["__init__", "after __init__", "pre_process", "one_time_rules", "after one_time_rules", "rules", "interrupt", "post_process", "after post_process", "destination"]


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def do_job(j, seen, shared):
    """Run a job; returns its outcome."""
    cls, rdfs = impl.CLASSES[j["sem"]]
    if j["observe"]:
        cls = observed(cls, j["fail"], seen)
    kw = dict(improved_datatypes=j["improved"], rdfs_closure=rdfs, axiomatic_triples=j["ax"], datatype_axioms=j["dax"])
    if j["form"] == "convert":
        o = impl.convert_options(j["sem"], impl.build(j["graph"]).serialize(format="nt"))
        try:
            out = owlrl.convert_graph(o)
        except Exception as e:
            return "raised " + type(e).__name__
        g = Graph().parse(data=out, format="turtle")
        trip, msgs = impl.split_errors(g)
        # (blank nodes have other names)
        return digest([sorted(t for t in trip if not any(x.startswith("_:") for x in t)), sorted(m for m in msgs if "_:" not in m)])
    if j.get("form") == "dataset":
        g = Dataset()
        for k, t in enumerate(j["graph"]):
            g.get_context(URIRef("urn:g%d" % (k % 2))).add(impl.triple(t))
    else:
        g = impl.build(j["graph"])
    dest = Graph() if j["fail"] == "destination" else None
    try:
        if j.get("form") == "shared":       # one closure object for many graphs
            key = json.dumps([j["sem"], kw], sort_keys=True)
            d, first = shared.setdefault(key, (owlrl.DeductiveClosure(cls, **kw), seen))
            if first is not seen:
                first.clear()
            try:
                d.expand(g, destination=dest)
            finally:
                if first is not seen:       # (its class reports to the first one)
                    seen.update(copy.deepcopy(first))
        else:
            owlrl.DeductiveClosure(cls, **kw).expand(g, destination=dest)
    except (Exception, KeyboardInterrupt) as e:
        return "raised " + type(e).__name__
    if j.get("form") == "dataset":
        r = Graph()
        for t in g.triples((None, None, None)):
            r.add(t)
        g = r
    trip, msgs = impl.split_errors(g)
    return digest([trip, sorted(msgs)])


def run_history(a):
    steps, jobs = a
    probes, out, shared = [], [], {}
    for s in steps:
        rec = dict(s, during=[], outcome="")
        if s["do"] == "on":
            owlrl.DeductiveClosure.use_improved_datatypes_conversions()
        elif s["do"] == "off":
            owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
        elif s["do"] == "own":
            rdflib.term.bind(OWN, None, lambda x: "own " + x)
        elif s["do"] == "nmt":
            rdflib.term.bind(NMT, None, lambda x: "own " + x)
        else:
            seen = {}
            rec["outcome"] = do_job(jobs[s["job"] - 1], seen, shared)
            rec["during"] = list(seen.get("probes", []))
        rec["after"] = probe()
        out.append(rec)
    return out


def fresh_refs(_):
    a = probe()
    owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    return a[0], probe()[0]


def references():
    a, b = isolated(fresh_refs, None)
    if a == b:
        raise MachineryError("the probes do not tell the conversions apart")
    return {a: "rdflib", b: "improved"}


def one(args):
    try:
        return isolated(run_history, args)
    except RuntimeError as e:
        return str(e)


def run_all(chk, hists, jobs, refs):
    recs = []
    for h, (st, v) in zip(hists, pmap(one, [(h, jobs) for h in hists], cpu=600)):
        if st != "ok" or isinstance(v, str):
            chk.violation("a history raised: %s" % v, {"history": h, "jobs": [jobs[s["job"] - 1] for s in h if s["job"]]})
            recs.append(None)
            continue
        for r in v:
            r["after"] = classify(r["after"], refs, False)
            ds = []
            for d in r["during"]:
                c = classify(d, refs, True)
                if c not in ds:
                    ds.append(c)
            r["during"] = ds
        recs.append(v)
    return recs


def judge(chk, hists, recs, jobs, fresh, what):
    todo = [{"id": str(i), "steps": r} for i, r in enumerate(recs) if r is not None]
    tmp = tempfile.mkdtemp(prefix="cases")
    try:
        f = os.path.join(tmp, "cases.json")
        json.dump({"hists": todo, "fresh": fresh, "jobs": [{"improved": j["improved"]} for j in jobs]}, open(f, "w"))
        lines, st, out = chk.tlc("SessionTrace", env={"CASES": f}, mem="12g")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    vs = tagged(lines, "VERDICT")
    if len(vs) != len(todo):
        raise MachineryError("%d verdicts for %d histories\n%s" % (len(vs), len(todo), out[-2000:]))
    vs.sort(key=lambda v: int(v["case"]))
    for v in vs:
        bad = [b for b in v["bad"] if (b["when"] == "outcome") == (what == "outcome")]
        if bad:
            h = hists[int(v["case"])]
            js = [jobs[s["job"] - 1] if s["job"] else None for s in h]
            chk.violation("history %s: %s" % (" ".join(s["do"] if not j else "expand(%s)" % j["id"] for s, j in zip(h, js)), json.dumps(bad[:2])),
                          {"history": h, "jobs": js, "bad": v["bad"]})
    chk.cov["traces_validated_against_impl"] += len(todo)


def histories(chk, jobs, n, switches, binds, simulate=None):
    tmp = tempfile.mkdtemp(prefix="jobs")
    try:
        f = os.path.join(tmp, "jobs.json")
        json.dump({"jobs": jobs, "length": [0] * n, "switches": switches, "binds": binds}, open(f, "w"))
        if simulate:
            lines, st = chk.model("MCSession", env={"JOBS": f}, workers=1, extra=["-simulate", "num=%d" % simulate, "-depth", str(2 * n + 1), "-seed", str(chk.seed)])
        else:
            lines, st = chk.model("MCSession", env={"JOBS": f})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hs = tagged(lines, "HIST")
    hs.sort(key=lambda h: json.dumps(h))
    if simulate:        # (TLC prints every last step of a trace)
        by = {}
        for h in hs:
            by.setdefault(json.dumps(h[:-1]), []).append(h)
        hs = [v[len(by) * 7 % len(v)] for k, v in sorted(by.items())]
    return hs


# ---------------------------------------------------------------------------------------------------- C15
def c15(chk):
    rng = chk.rng("c15")
    refs = references()
    classes = [{"improved": a, "fails": b} for a in (True, False) for b in (False, True)]
    hs = histories(chk, classes, chk.pick(3, 4), True, True)
    more = histories(chk, classes, chk.pick(4, 5), True, True)
    hs += rng.sample(more, min(len(more), chk.pick(900, 6000)))
    graphs = [[("x:i", "x:p", '"1"^^xsd:int'), ("x:p", "rdfs:range", "x:C")],
              p_meta.facets(rng, counter()) + [("x:i", "x:p", '"9"^^xsd:integer')],
              [("x:i", "x:p", '"1/2"^^owl:rational'), ("x:F", "owl:onDatatype", "xsd:int")],
              [("x:i", "x:p", '"abc"^^xsd:int')],
              [(s.replace("x:F0", "x:F"), p, o.replace("x:F0", "x:F")) for s, p, o in p_meta.facets(rng, counter())] + [("x:i", "x:p", '"8"^^xsd:integer'), ("x:i", "x:q", '"8"^^x:F')]]
    jobs = []
    for c in classes:
        for sem in impl.CLASSES:
            for f in (FAILS if c["fails"] else ["none"]):
                jobs.append({"id": "%s-%s-%s" % (sem, "improved" if c["improved"] else "plain", f), "improved": c["improved"], "sem": sem, "fail": f,
                             "ax": rng.random() < .03, "dax": rng.random() < .03, "graph": rng.choice(graphs), "observe": True, "cls": classes.index(c) + 1,
                             "form": rng.choice(["", "", "dataset", "shared"]) if f == "none" else ""})
    by = {k: [i + 1 for i, j in enumerate(jobs) if j["cls"] == k] for k in range(1, 5)}
    light = {k: [i for i in v if jobs[i - 1]["sem"] in ("rdfs", "owl", "ext") and not jobs[i - 1]["ax"] and not jobs[i - 1]["dax"]] for k, v in by.items()}
    conc = []
    for h in hs:
        conc.append([dict(s, job=rng.choice(by[s["job"]] if rng.random() < .2 else light[s["job"]])) if s["do"] == "expand" else s for s in h])
    chk.cov["histories"] = len(conc)
    recs = run_all(chk, conc, jobs, refs)
    # the outcomes are the business of C14
    judge(chk, conc, recs, jobs, [{"on": "", "off": ""} for j in jobs], "table")
    chk.sample({"history": [s if s["do"] != "expand" else jobs[s["job"] - 1]["id"] for s in conc[len(conc) // 2]]})
    chk.assumptions = ["the probes tell the conversion tables apart"]


# ---------------------------------------------------------------------------------------------------- C14
def restriction(d, base, facets, f):
    """A definition of the datatype d."""
    k = next(f)
    nodes = ["_:w%d_%d" % (k, i) for i in range(len(facets))]
    ts = [(d, "rdf:type", "rdfs:Datatype"), (d, "owl:onDatatype", base), (d, "owl:withRestrictions", "_:h%d_0" % k if nodes else "rdf:nil")]
    for i, (n, (fa, v)) in enumerate(zip(nodes, facets)):
        ts += [("_:h%d_%d" % (k, i), "rdf:first", n), ("_:h%d_%d" % (k, i), "rdf:rest", "_:h%d_%d" % (k, i + 1) if i + 1 < len(nodes) else "rdf:nil"), (n, "xsd:" + fa, v)]
    return ts


def pool(rng):
    f = counter()
    use = [("x:i", "x:p", '"%d"^^xsd:integer' % v) for v in (3, 8, 20)] + [("x:i", "x:p", '"8"^^xsd:int'), ("x:i", "x:q", '"8"^^x:F'), ("x:i", "x:q", '"ab"^^xsd:string')]
    J = []

    def add(name, sem, graph, **k):
        J.append(dict({"id": name, "sem": sem, "graph": sorted(set(graph)), "improved": True, "fail": "none", "ax": False, "dax": False, "observe": False, "form": ""}, **k))
    le = lambda v: ("maxInclusive", '"%d"^^xsd:integer' % v)
    ge = lambda v: ("minInclusive", '"%d"^^xsd:integer' % v)
    # the same IRI, defined in different ways and not at all
    add("F-high", "ext", restriction("x:F", "xsd:integer", [ge(5)], f) + use)
    add("F-low", "ext", restriction("x:F", "xsd:integer", [le(5)], f) + use)
    add("F-int", "extrdfs", restriction("x:F", "xsd:int", [ge(1), le(9)], f) + use)
    add("F-string", "ext", restriction("x:F", "xsd:string", [("pattern", '"a.*"')], f) + use)
    add("F-bad", "ext", restriction("x:F", "xsd:nothing", [ge(5)], f) + use)
    add("F-some", "ext", restriction("x:F", "xsd:integer", [ge(5)], f) + [("x:r", "owl:onProperty", "x:p"), ("x:r", "owl:allValuesFrom", "x:F"), ("x:i", "rdf:type", "x:r")] + use)
    add("all-F", "ext", [("x:r", "owl:onProperty", "x:p"), ("x:r", "owl:allValuesFrom", "x:F"), ("x:i", "rdf:type", "x:r")] + use)
    add("no-F", "ext", use)
    add("no-F-rdfs", "extrdfs", use + [("x:F", "rdf:type", "rdfs:Datatype")])
    add("no-F-owl", "owl", use + [("x:F", "rdf:type", "rdfs:Datatype"), ("x:q", "rdfs:range", "x:F")])
    add("G-on-F", "ext", restriction("x:F", "xsd:integer", [ge(5)], f) + restriction("x:G", "x:F", [le(10)], f) + use)
    add("G", "ext", restriction("x:G", "xsd:integer", [le(10)], f) + use)
    add("xsd-int-redefined", "ext", restriction("xsd:short", "xsd:integer", [le(10)], f) + use + [("x:i", "x:p", '"300"^^xsd:short')])
    add("short", "owl", use + [("x:i", "x:p", '"300"^^xsd:short'), ("x:i", "x:p", '"99999"^^xsd:short')])
    # extension datatypes
    rat = [("x:i", "x:p", '"1/2"^^owl:rational'), ("x:i", "x:p", '"2/4"^^owl:rational'), ("x:i", "x:p", '"0.5"^^xsd:decimal'), ("x:p", "rdf:type", "owl:FunctionalProperty"), ("x:i", "x:p", '"1/0"^^owl:rational')]
    for sem in ("ext", "owl", "extrdfs", "rdfs"):
        add("rational-" + sem, sem, rat)
    add("rational-plain", "ext", rat, improved=False)
    # literals
    lit = [("x:i", "x:p", l) for l in ('"abc"^^xsd:int', '"300"^^xsd:byte', '"TRUE"^^xsd:boolean', '"1_0"^^xsd:integer', '"0G"^^xsd:hexBinary', '"2000-01-01T24:00:00Z"^^xsd:dateTime', '"a b"^^xsd:NMTOKEN', '"1a"^^xsd:Name')]
    add("lit-owl", "owl", lit)
    add("lit-owl-plain", "owl", lit, improved=False)
    add("lit-rdfs", "rdfs", lit)
    add("lit-rdfs-plain", "rdfs", lit, improved=False)
    add("lit-owl-dax", "owl", lit[:3], dax=True)
    add("lit-rdfs-dax", "rdfs", lit[:3], dax=True)
    # errors, containers, generalised triples, axioms, lists
    add("errors", "owl", [("x:i", "owl:sameAs", "x:j"), ("x:i", "owl:differentFrom", "x:j"), ("x:C", "owl:disjointWith", "x:D"), ("x:k", "rdf:type", "x:C"), ("x:k", "rdf:type", "x:D")])
    add("no-errors", "owl", [("x:i", "owl:sameAs", "x:j"), ("x:C", "owl:disjointWith", "x:D"), ("x:k", "rdf:type", "x:C"), ("x:i", "rdf:type", "x:D")])
    add("container-ax", "rdfs", [("x:b", "rdf:_3", "x:i"), ("x:b", "rdf:type", "rdf:Bag")], ax=True)
    add("container", "rdfs", [("x:b", "rdf:_1", "x:i"), ("x:b", "rdf:_2", "x:j")])
    add("container-none-ax", "rdfs", [("x:b", "x:p", "x:j")], ax=True)
    add("ax", "owl", [("x:i", "x:p", "x:j")], ax=True)
    add("bnode-predicate", "owl", [("_:p", "owl:inverseOf", "x:p"), ("x:i", "x:p", "x:j")])
    add("literal-subject", "owl", [("x:p", "rdf:type", "owl:SymmetricProperty"), ("x:i", "x:p", '"1"^^xsd:int')])
    ls = [("x:C", "owl:unionOf", "_:a"), ("_:a", "rdf:first", "x:D"), ("_:a", "rdf:rest", "_:b"), ("_:b", "rdf:first", "x:E"), ("_:b", "rdf:rest", "rdf:nil"), ("x:i", "rdf:type", "x:E")]
    add("list", "owl", ls)
    add("list-other", "owl", [t for t in ls if t[2] != "x:E"] + [("_:b", "rdf:first", "x:G"), ("x:i", "rdf:type", "x:D")])
    add("trim", "trim", [("x:C", "rdfs:subClassOf", "x:D"), ("x:i", "rdf:type", "x:C")])
    # failures half way
    for fail in ("after __init__", "one_time_rules", "rules", "after post_process", "destination"):
        add("fails-" + fail.replace(" ", "-"), rng.choice(["ext", "owl", "extrdfs"]), restriction("x:F", "xsd:integer", [ge(5)], f) + rat + use, fail=fail, observe=True)
    # other forms
    add("dataset", "owl", use + ls, form="dataset")
    add("dataset-F", "ext", restriction("x:F", "xsd:integer", [le(5)], f) + use, form="dataset")
    # one closure object for several graphs
    add("shared-F", "ext", restriction("x:F", "xsd:integer", [ge(7)], f) + use, form="shared")
    add("shared-no-F", "ext", use, form="shared")
    add("shared-rat", "ext", rat, form="shared")
    add("shared-owl", "owl", lit, form="shared")
    add("shared-owl2", "owl", ls + use, form="shared")
    add("convert-F", "ext", restriction("x:F", "xsd:integer", [ge(5)], f) + use, form="convert")
    add("convert", "owl", use + ls, form="convert")
    for k in range(6):
        sem = rng.choice(["owl", "owl", "rdfs", "ext", "comb"])
        add("random-%d" % k, sem, p_meta.graph(rng, sem), form=rng.choice(["", "", "shared"]))
    return J


def baseline(a):
    jobs, k, on = a
    if on:
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    return do_job(dict(jobs[k], observe=jobs[k]["observe"]), {}, {})


def base_one(a):
    return isolated(baseline, a)


def c14(chk):
    rng = chk.rng("c14")
    refs = references()
    jobs = pool(rng)
    r = pmap(base_one, [(jobs, k, on) for k in range(len(jobs)) for on in (False, True)], cpu=600)
    for (st, v) in r:
        if st != "ok":
            raise MachineryError(v)
    fresh = [{"off": r[2 * k][1], "on": r[2 * k + 1][1]} for k in range(len(jobs))]
    if len({x["off"] for x in fresh}) < len(jobs) // 2:
        raise MachineryError("the outcomes do not tell the jobs apart")
    # pairs of jobs; short history with the switches; long ones
    hs = histories(chk, jobs, 2, False, False)
    if not chk.thorough:        # (the long ones have 66 pairs each)
        hs = rng.sample(hs, 300)
    more = histories(chk, jobs, 3, True, False)
    hs += rng.sample(more, chk.pick(150, 12000))
    hs += histories(chk, jobs, 12, True, False, simulate=chk.pick(130, 1500))
    chk.cov["histories"] = len(hs)
    chk.cov["jobs"] = len(jobs)
    recs = run_all(chk, hs, jobs, refs)
    judge(chk, hs, recs, jobs, fresh, "outcome")
    chk.sample({"history": [s["do"] if s["do"] != "expand" else jobs[s["job"] - 1]["id"] for s in hs[-1]]})
    chk.assumptions = ["the outcomes are compared by a digest of the triples and messages"]
