"""Recorded expansions, validated by spec/ClosureTrace.tla."""
import json, os, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import impl
from harness import *

MAXOUT = 9000


def lit(t):
    """Facts about the literals used in closure cases (their lexical forms are canonical)."""
    m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"(?:\^\^(\S+)|@(\S+))?', t)
    lex, dt, lang = m.group(1), m.group(2) or "", m.group(3)
    f = {"t": t, "dt": dt, "ok": True, "num": "-", "val": ""}
    if lang:
        f["val"] = "lang:%s:%s" % (lang.lower(), lex)
    elif dt in ("", "xsd:string", "xsd:token", "xsd:NCName", "xsd:normalizedString", "xsd:Name", "xsd:language"):
        f["val"] = "str:" + lex
    elif dt in INTS or dt == "xsd:decimal":
        if re.fullmatch(r"-?[0-9]+", lex):
            f["val"] = "dec:%d" % int(lex)
            f["num"] = {0: "0", 1: "1"}.get(int(lex), "-")
        elif lex == "abc":
            f["ok"] = False
        else:
            raise ValueError(t)
    elif dt == "xsd:boolean":
        f["val"] = "bool:" + {"1": "true", "0": "false"}.get(lex, lex)
    else:
        f["val"] = dt + ":" + lex
    return f


INTS = ("xsd:integer", "xsd:int", "xsd:long", "xsd:short", "xsd:byte", "xsd:nonNegativeInteger", "xsd:positiveInteger",
        "xsd:nonPositiveInteger", "xsd:negativeInteger", "xsd:unsignedInt", "xsd:unsignedByte", "xsd:unsignedShort", "xsd:unsignedLong")


def case(cid, inp, sem="owl", ax=False, dax=False, facts=None, **kw):
    inp = sorted({tuple(t) for t in inp})
    terms = {x for t in inp for x in t}
    lits = [(facts or lit)(x) for x in sorted(terms) if x.startswith('"')]
    c = {"id": str(cid), "sem": sem, "ax": ax, "dax": dax, "inp": inp, "lits": lits,
         "bnodes": sorted(x for x in terms if x.startswith("_:")),
         "members": sorted({t[1] for t in inp if re.fullmatch(r"rdf:_[1-9][0-9]*", t[1])})}
    c.update(kw)
    return c


def run_case(c):
    g = impl.build(c["inp"])
    impl.expand(g, c["sem"], c["ax"], c["dax"])
    out, msgs = impl.split_errors(g)
    return out, msgs


def judge_tlc(chk, todo, module, tag, timeout):
    tmp = tempfile.mkdtemp(prefix="cases")
    try:
        f = os.path.join(tmp, "cases.json")
        json.dump([{k: v for k, v in c.items() if v is not None} for c in todo], open(f, "w"))
        lines, st, out = chk.tlc(module, env={"CASES": f}, timeout=timeout, mem="12g")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    verdicts = {v["case"]: v for v in tagged(lines, tag)}
    if st["violated"] or len(verdicts) != len(todo):
        raise MachineryError("%d verdicts for %d cases\n%s" % (len(verdicts), len(todo), out[-3000:]))
    return verdicts


SMALL = 3500


def validate(chk, cases, module="ClosureTrace", runner=run_case, cpu=60, tag="VERDICT", timeout=800, maxout=MAXOUT):
    """Run the implementation on the cases and TLC on what it did.
    Returns [(case, verdict or None, messages, failure or None)]."""
    assert len({c["id"] for c in cases}) == len(cases)
    res = pmap(runner, cases, cpu=cpu, chunksize=2)
    todo, result, suspects = [], [], []
    for c, (st, v) in zip(cases, res):
        if st == "timeout":
            suspects.append((c, "no result: " + v))
        elif st != "ok":
            result.append((c, None, [], "%s: %s" % (st, v)))
        elif len(v[0]) > maxout:
            suspects.append((c, "%d triples" % len(v[0])))
        else:
            todo.append(dict(c, out=v[0], msgs=v[1]))
    def look(s):
        try:
            return judge_tlc(chk, [dict(s[0], out=[], msgs=[])], "ClosureTrace", "VERDICT", 45)[s[0]["id"]]["size"]
        except MachineryError:
            return SMALL + 1
    with ThreadPoolExecutor(2) as ex:
        looked = list(ex.map(look, suspects[:4]))
    for (c, what), size in zip(suspects[:4], looked):
        # is it the specification that makes the closure so big?
        if size <= SMALL:
            result.append((c, None, [], "%s, although the closure has %d" % (what, size)))
            continue
        chk.cov["too_big"] = chk.cov.get("too_big", 0) + 1
    if todo:
        todo.sort(key=lambda c: -len(c["out"]))
        verdicts = judge_tlc(chk, todo, module, tag, timeout)
        chk.cov["traces_validated_against_impl"] += len(todo)
        for c in todo:
            result.append((c, verdicts[c["id"]], c["msgs"], None))
    return result


def describe(c):
    return {k: c.get(k) for k in ("id", "sem", "ax", "dax", "inp", "rules")}


def fmt(ts, n=6):
    ts = [t if isinstance(t, str) else " ".join(t) for t in list(ts)]
    return "; ".join(ts[:n]) + (" ... (%d)" % len(ts) if len(ts) > n else "")


# ------------------------------------------------------------ generated cases
def micro(chk, rules, emit=True, allrules=False):
    """The instantiation patterns of the rules, from spec/MCRules.tla (also model checks them)."""
    tmp = tempfile.mkdtemp(prefix="rules")
    try:
        f = "*"
        if rules != "*":
            f = os.path.join(tmp, "rules.json")
            json.dump(sorted(rules), open(f, "w"))
        lines, st = chk.model("MCRules", env={"RULES": f, "EMIT": "1" if emit else "0", "ALLRULES": "1" if allrules else "0"})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cs = tagged(lines, "CASE")
    for c in cs:        # (the order in which TLC prints sets varies)
        c["g"].sort(), c["v"].sort()
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cs


def concretise(m, variant, tag):
    """Rename the resources of a micro case: all IRIs, all blank nodes, or literals where RDF allows them."""
    g = m["g"]
    nonobj = {x for t in g for x in t[:2]}
    ren = {}
    for i, x in enumerate(sorted({x for t in g for x in t})):
        if x in m["v"]:
            if variant == "bnode":
                ren[x] = "_:%s%s" % (x[2:], tag)
            elif variant == "lit" and x not in nonobj:
                ren[x] = ['"%s%s"^^xsd:string', '"%s%s"', '"%s%s"@en', '"%s%s"^^xsd:NCName'][i % 4] % (x[2:], tag)
            elif variant == "num" and x not in nonobj:
                n = 100 + 10 * tag + i if isinstance(tag, int) else 100 + i
                ren[x] = '"%d"^^%s' % (n, ["xsd:int", "xsd:integer", "xsd:nonNegativeInteger", "xsd:decimal"][i % 4])
            else:
                ren[x] = x + str(tag)
        elif x.startswith("_:"):
            ren[x] = x + "c" + str(tag)
        else:
            ren[x] = x
    return [tuple(ren[x] for x in t) for t in g], ren


def has_object_only(m):
    nonobj = {x for t in m["g"] for x in t[:2]}
    return any(x in m["v"] and x not in nonobj for t in m["g"] for x in t)


def pack(items, size, prefix, sem="owl", **kw):
    """items: [(micro case, variant)] -> cases of `size` renamed-apart micro cases each."""
    out = []
    for i in range(0, len(items), size):
        inp = []
        for j, (m, v) in enumerate(items[i:i + size]):
            inp += concretise(m, v, j)[0]
        out.append(case("%s%d" % (prefix, i // size), inp, sem, rules=sorted({m["rule"] for m, v in items[i:i + size]}), **kw))
    return out


SPECIALS = ["owl:Thing", "owl:Nothing", "rdf:type", "owl:sameAs", "rdfs:subClassOf", "rdfs:subPropertyOf", "rdfs:Resource",
            "owl:Class", "rdfs:domain", "owl:equivalentClass"]


def special(m, rng, k=1):
    """One variable denotes a vocabulary term."""
    out = []
    for v in rng.sample(sorted(m["v"]), min(k, len(m["v"]))):
        w = rng.choice(SPECIALS)
        out.append([tuple(w if x == v else x for x in t) for t in m["g"]])
    return out


# --------------------------------------------------------------- random graphs
def rlist(rng, elems, fresh):
    ts, cells = [], ["_:l%d" % next(fresh) for _ in elems]
    for i, e in enumerate(elems):
        ts.append((cells[i], "rdf:first", e))
        ts.append((cells[i], "rdf:rest", cells[i + 1] if i + 1 < len(cells) else "rdf:nil"))
    return (cells[0] if cells else "rdf:nil"), ts


def counter():
    i = 0
    while True:
        yield i
        i += 1


def ontology(rng, schema=6, facts=10, feats=None, lits=True, bn=True, nC=5, nP=4, nI=6):
    """A random graph over small pools of classes, properties and individuals that uses all
    constructs the rules know."""
    C = ["x:C%d" % i for i in range(nC)] + (["_:C%d" % i for i in range(1)] if bn else [])
    P = ["x:p%d" % i for i in range(nP)]
    I = ["x:i%d" % i for i in range(nI)] + (["_:i%d" % i for i in range(2)] if bn else [])
    L = ['"%d"^^xsd:integer' % i for i in (0, 1, 7)] + ['"7"^^xsd:int', '"v"', '"v"@en', '"w"^^xsd:string'] if lits else []
    fresh = counter()
    g = []
    c, p, i = (lambda: rng.choice(C)), (lambda: rng.choice(P)), (lambda: rng.choice(I))
    v = lambda: rng.choice(I + L) if rng.random() < .3 else i()

    def lst(pred, mk, lo=1, hi=3):
        n = rng.randint(lo, hi)
        h, ts = rlist(rng, [mk() for _ in range(n)], fresh)
        return h, ts

    def restr(pred, val, extra=()):
        r = c() if rng.random() < .3 else "_:r%d" % next(fresh)
        ts = [(r, "owl:onProperty", p()), (r, pred, val)] + [(r, a, b) for a, b in extra]
        k = rng.random()
        if k < .35:
            ts.append((c(), "rdfs:subClassOf", r))
        elif k < .7:
            ts.append((r, "rdfs:subClassOf", c()))
        elif k < .85:
            ts.append((r, "owl:equivalentClass", c()))
        else:
            ts.append((i(), "rdf:type", r))
        return ts

    def listax(subj, pred, mk, lo=1, hi=3):
        h, ts = lst(pred, mk, lo, hi)
        return [(subj, pred, h)] + ts

    def alld(cls, pred, mk):
        n = "_:a%d" % next(fresh)
        h, ts = lst(pred, mk, 2, 4)
        return [(n, "rdf:type", cls), (n, pred, h)] + ts
    ONE, ZERO = '"1"^^xsd:nonNegativeInteger', '"0"^^xsd:nonNegativeInteger'
    F = {
        "sco": lambda: [(c(), "rdfs:subClassOf", c())],
        "eqc": lambda: [(c(), "owl:equivalentClass", c())],
        "spo": lambda: [(p(), "rdfs:subPropertyOf", p())],
        "eqp": lambda: [(p(), "owl:equivalentProperty", p())],
        "dom": lambda: [(p(), "rdfs:domain", c())],
        "rng": lambda: [(p(), "rdfs:range", c())],
        "inv": lambda: [(p(), "owl:inverseOf", p())],
        "sym": lambda: [(p(), "rdf:type", "owl:SymmetricProperty")],
        "trp": lambda: [(p(), "rdf:type", "owl:TransitiveProperty")],
        "fp": lambda: [(p(), "rdf:type", "owl:FunctionalProperty")],
        "ifp": lambda: [(p(), "rdf:type", "owl:InverseFunctionalProperty")],
        "op": lambda: [(p(), "rdf:type", rng.choice(["owl:ObjectProperty", "owl:DatatypeProperty", "rdf:Property"]))],
        "cls": lambda: [(c(), "rdf:type", rng.choice(["owl:Class", "rdfs:Class"]))],
        "chain": lambda: listax(p(), "owl:propertyChainAxiom", p),
        "key": lambda: listax(c(), "owl:hasKey", p, 1, 2),
        "int": lambda: listax(c(), "owl:intersectionOf", c),
        "uni": lambda: listax(c(), "owl:unionOf", c),
        "one": lambda: listax(c(), "owl:oneOf", i),
        "svf": lambda: restr("owl:someValuesFrom", rng.choice(C + ["owl:Thing"])),
        "avf": lambda: restr("owl:allValuesFrom", c()),
        "hv": lambda: restr("owl:hasValue", v()),
        "maxc": lambda: restr("owl:maxCardinality", ONE),
        "maxq": lambda: restr("owl:maxQualifiedCardinality", ONE, [("owl:onClass", rng.choice(C + ["owl:Thing"]))]),
        "same": lambda: [(i(), "owl:sameAs", i())],
        "samep": lambda: [(p(), "owl:sameAs", p())],
        "self": lambda: restr("owl:hasSelf", '"true"^^xsd:boolean'),
        # inconsistencies
        "diff": lambda: [(i(), "owl:differentFrom", i())],
        "irp": lambda: [(p(), "rdf:type", "owl:IrreflexiveProperty")],
        "asy": lambda: [(p(), "rdf:type", "owl:AsymmetricProperty")],
        "pdw": lambda: [(p(), "owl:propertyDisjointWith", p())],
        "dw": lambda: [(c(), "owl:disjointWith", c())],
        "com": lambda: [(c(), "owl:complementOf", c())],
        "adp": lambda: alld("owl:AllDisjointProperties", "owl:members", p),
        "adc": lambda: alld("owl:AllDisjointClasses", "owl:members", c),
        "adf": lambda: alld("owl:AllDifferent", rng.choice(["owl:members", "owl:distinctMembers"]), i),
        "npa": lambda: [("_:n%d" % next(fresh), q, x) for n in [next(fresh)] for q, x in ()] or npa(),
        "maxc0": lambda: restr("owl:maxCardinality", ZERO),
        "maxq0": lambda: restr("owl:maxQualifiedCardinality", ZERO, [("owl:onClass", rng.choice(C + ["owl:Thing"]))]),
        "nothing": lambda: [(c(), "rdfs:subClassOf", "owl:Nothing")],
        "cont": lambda: [(i(), "rdf:_%d" % rng.choice([1, 2, 5, 11]), v())],
    }

    def npa():
        n = "_:n%d" % next(fresh)
        return [(n, "owl:sourceIndividual", i()), (n, "owl:assertionProperty", p())] + \
            [(n, "owl:targetIndividual", i()) if rng.random() < .6 or not L else (n, "owl:targetValue", rng.choice(L))]
    for _ in range(schema):
        g += F[rng.choice(feats)]()
    for _ in range(facts):
        k = rng.random()
        if k < .4:
            g.append((i(), "rdf:type", c()))
        elif k < .93:
            g.append((i(), p(), v()))
        elif "same" in feats:
            g.append((i(), "owl:sameAs", i()))
    return g


# ------------------------------------------------------------ statements by detours
STRUCT = {"rdf:first", "rdf:rest", "owl:intersectionOf", "owl:unionOf", "owl:oneOf", "owl:hasKey", "owl:propertyChainAxiom",
          "owl:members", "owl:distinctMembers", "owl:sameAs", "owl:maxCardinality", "owl:maxQualifiedCardinality", "owl:hasSelf"}


RDFSWAYS = {"subprop", "genprop", "subclass", "between", "domain", "range"}


def detour(t, rng, f, allowed=None):
    """Triples one or more of whose consequences (OWL 2 RL, or RDFS) is the triple t."""
    s, p, o = t
    k, q, L = next(f), None, o.startswith('"')
    ways = ["subprop", "sames", "eqprop", "genprop"] + ([] if L else ["inverse", "sameo", "geninv"])
    if p == "rdf:type" and not L:
        ways += ["subclass", "subclass", "oneof", "domain", "range", "value"]
    if p in ("rdfs:subClassOf", "owl:equivalentClass") and not L:
        ways += ["between", "between"]
    if s.startswith("_:") or s.startswith('"') or p.startswith("_:"):
        ways = [w for w in ways if w not in ("sames",)]
    w = rng.choice([w for w in ways if not allowed or w in allowed])
    q, b, c = "x:via%d" % k, "_:via%d" % k, "x:Via%d" % k
    return {"subprop": lambda: [(s, q, o), (q, "rdfs:subPropertyOf", p)],
            "eqprop": lambda: [(s, q, o), (p, "owl:equivalentProperty", q)],
            "inverse": lambda: [(o, q, s), (q, "owl:inverseOf", p)],
            "geninv": lambda: [(s, q, o), (b, "owl:inverseOf", q), (p, "owl:inverseOf", b)],
            "genprop": lambda: [(s, q, o), (q, "rdfs:subPropertyOf", b), (b, "rdfs:subPropertyOf", p)],
            "sames": lambda: [(c, p, o), (s, "owl:sameAs", c)],
            "sameo": lambda: [(s, p, c), (c, "owl:sameAs", o)],
            "subclass": lambda: [(s, p, c), (c, "rdfs:subClassOf", o)],
            "between": lambda: [(s, p, c), (c, p, o)],
            "oneof": lambda: [(o, "owl:oneOf", b), (b, "rdf:first", s), (b, "rdf:rest", "rdf:nil")],
            "domain": lambda: [(s, q, c), (q, "rdfs:domain", o)],
            "range": lambda: [(c, q, s), (q, "rdfs:range", o)],
            "value": lambda: [(s, q, c), (o, "owl:hasValue", c), (o, "owl:onProperty", q)],
            }[w]()


def distract(g, rng, frac, skip=("rdf:first", "rdf:rest")):
    """The graph with second values for some of its statements, whose names come before or after the others."""
    out = list(g)
    for i, (s, p, o) in enumerate(g):
        if p in skip or rng.random() > frac:
            continue
        o2 = rng.choice([x for x in ("x:A%d" % i, "x:z%d" % i, "_:z%d" % i)])
        if rng.random() < .35:      # the other value is in use
            o2 = rng.choice([t[2] for t in g if t[1] == p])
        out.append((s, p, o2))
    return out


TYPES = ["owl:Class", "rdfs:Class", "owl:NamedIndividual", "rdfs:Literal", "rdfs:Resource", "owl:Thing", "owl:Restriction", "rdf:List", "rdf:Property",
         "owl:ObjectProperty", "owl:DatatypeProperty", "owl:AnnotationProperty", "owl:Ontology", "owl:Axiom", "rdfs:Datatype", "x:AnyType"]
NOTES = [("rdfs:label", '"zza"@en'), ("rdfs:comment", '"zzb"'), ("rdfs:seeAlso", "x:doc"), ("rdfs:isDefinedBy", "x:doc"), ("owl:versionInfo", '"zz1"'),
         ("owl:deprecated", '"true"^^xsd:boolean'), ("owl:priorVersion", "x:old"), ("rdf:value", '"v"')]


def decorate(g, rng, frac):
    """The graph with declarations and annotations of some of its resources."""
    out = list(g)
    for x in sorted({y for t in g for y in t if y[:2] in ("x:", "_:")}):
        if rng.random() < frac:
            out.append((x, "rdf:type", rng.choice(TYPES)) if rng.random() < .8 else (x,) + rng.choice(NOTES))
    return out


def heads(g):
    """What the axioms of an instance are about."""
    out = []
    for s, p, o in g:
        if s[:2] in ("x:", "_:") and p not in ("rdf:first", "rdf:rest") and (p[:2] not in ("x:", "_:") and p != "rdf:type" or
                                                                            p == "rdf:type" and o[:2] not in ("x:", "_:")) and s not in out:
            out.append(s)
    return out


def overlap(a, b, rng):
    """Two instances of rules that have resources in common."""
    ren = {}
    cells = {t[0] for t in list(a) + list(b) if t[1] in ("rdf:first", "rdf:rest")}      # (lists stay lists)
    ha, hb = [x for x in heads(a) if x not in cells], [x for x in heads(b) if x not in cells]
    if ha and hb and rng.random() < .8:
        ren[rng.choice(hb)] = rng.choice(ha)
    for _ in range(rng.choice([0, 1, 1, 2])):
        role = rng.choice([1, 0, 2])
        xs = sorted({t[role] for t in a if t[role][:2] in ("x:", "_:")} - cells)
        ys = sorted({t[role] for t in b if t[role][:2] in ("x:", "_:")} - set(ren) - cells)
        if xs and ys:
            ren[rng.choice(ys)] = rng.choice(xs)
    return list(a) + [tuple(ren.get(x, x) for x in t) for t in b]


def overlaps(ms, rng, n, size, frac=.15):
    """Graphs of several overlapping instances (every rule is among them in turn)."""
    full = {}
    for m in ms:
        if not m["drop"]:
            full.setdefault(m["rule"], []).append(m)
    full = [v for k, v in sorted(full.items())]
    for i in range(n):
        g = []
        for j in range(size):
            a = concretise(rng.choice(full[(i * size + j) % len(full)]), rng.choice(VAR4), 2 * j)[0]
            b = concretise(rng.choice(rng.choice(full)), rng.choice(VAR4), 2 * j + 1)[0]
            g += decorate(overlap(a, b, rng), rng, frac)
        yield g


def declared(ms, rng, frac=1):
    """Every rule, with every resource of its instances declared to be everything."""
    full = {}
    for m in ms:
        if not m["drop"]:
            full.setdefault(m["rule"], []).append(m)
    items = []
    for r, v in sorted(full.items()):
        g = concretise(rng.choice(v), "iri", 0)[0]
        k = len({y for t in g for y in t if y[:2] in ("x:", "_:")} - {t[0] for t in g if t[1] == "rdf:rest"})
        items += [(rng.choice(v), i, t) for i in range(k) for t in TYPES if rng.random() < frac]
    rng.shuffle(items)
    for i in range(0, len(items), 16):
        out = []
        for j, (m, k, t) in enumerate(items[i:i + 16]):
            g = concretise(m, rng.choice(["iri", "bnode"]), j)[0]
            xs = sorted({y for t in g for y in t if y[:2] in ("x:", "_:")} - {t[0] for t in g if t[1] == "rdf:rest"})
            out += g + [(xs[k % len(xs)], "rdf:type", t)] if xs else g
        yield out


VAR4 = ["iri", "iri", "bnode", "lit", "num"]


def indirect(g, rng, frac, f=None, allowed=None):
    """The graph with some of its statements replaced by ones that imply them, and some of its properties
    renamed to blank nodes wherever they are not used as predicates."""
    f, out = f or counter(), []
    preds = sorted({t[1] for t in g if t[1].startswith("x:")} & {x for t in g for x in (t[0], t[2])})
    gen = {p for p in preds if rng.random() < .25}
    ren = lambda x: "_:gen" + x[2:] if x in gen else x
    for t in g:
        t = (ren(t[0]), t[1], ren(t[2]))
        if t[1] in STRUCT or t[0].startswith('"') or rng.random() > frac:
            out.append(t)
        else:
            out += detour(t, rng, f, allowed)
    for p in sorted(gen):
        if allowed:
            out += rng.choice([[(p, "rdfs:subPropertyOf", ren(p))], [(p, "rdfs:subPropertyOf", ren(p)), (ren(p), "rdfs:subPropertyOf", p)]])
            continue
        out += rng.choice([[(p, "rdfs:subPropertyOf", ren(p))], [(ren(p), "owl:inverseOf", p)], [(p, "owl:equivalentProperty", ren(p))],
                           [(p, "owl:inverseOf", ren(p))], [(ren(p), "owl:sameAs", p)]])
    return out


POSITIVE = ["sco", "eqc", "spo", "eqp", "dom", "rng", "inv", "sym", "trp", "fp", "ifp", "op", "cls", "chain", "key", "int", "uni",
            "one", "svf", "avf", "hv", "maxc", "maxq", "same", "samep", "self"]
NEGATIVE = ["diff", "irp", "asy", "pdw", "dw", "com", "adp", "adc", "adf", "npa", "maxc0", "maxq0", "nothing"]
RDFS_FEATS = ["sco", "spo", "dom", "rng", "op", "cls", "cont"]
