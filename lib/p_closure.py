"""C01 C02 C03 C04 C05: the closures.  Inputs come from the specification (every instantiation pattern of every
rule) and from generators; what the implementation made of them is judged by spec/ClosureTrace.tla."""
import itertools, json, re
from closure import *
import p_lexical

EQ = {"eq-ref", "eq-sym", "eq-trans", "eq-rep-s", "eq-rep-p", "eq-rep-o"}
PRP = {"prp-dom", "prp-rng", "prp-fp", "prp-ifp", "prp-symp", "prp-trp", "prp-spo1", "prp-spo2", "prp-eqp1", "prp-eqp2",
       "prp-inv1", "prp-inv2", "prp-key"}
CLS = {"cls-thing", "cls-nothing1", "cls-int1", "cls-int2", "cls-uni", "cls-svf1", "cls-svf2", "cls-avf", "cls-hv1", "cls-hv2",
       "cls-maxc2", "cls-maxqc3", "cls-maxqc4", "cls-oo"}
CAX = {"cax-sco", "cax-eqc1", "cax-eqc2"}
SCM = {"scm-cls", "scm-sco", "scm-eqc1", "scm-eqc2", "scm-op", "scm-dp", "scm-spo", "scm-eqp1", "scm-eqp2", "scm-dom1", "scm-dom2",
       "scm-rng1", "scm-rng2", "scm-hv", "scm-svf1", "scm-svf2", "scm-avf1", "scm-avf2", "scm-int", "scm-uni", "scm-prop"}
RDFS = {"rdf1", "rdfs2", "rdfs3", "rdfs4a", "rdfs4b", "rdfs5", "rdfs6", "rdfs7", "rdfs8", "rdfs9", "rdfs10", "rdfs11", "rdfs12", "rdfs13"}
SELF = {"self1", "self2"}
VIOL = {"eq-diff1", "eq-diff2", "eq-diff3", "prp-irp", "prp-asyp", "prp-pdw", "prp-adp", "prp-npa1", "prp-npa2", "cls-nothing2",
        "cls-com", "cls-maxc1", "cls-maxqc1", "cls-maxqc2", "cax-dw", "cax-adc"}
OWL = EQ | PRP | CLS | CAX | SCM

VARIANTS = ["iri", "bnode", "lit", "num"]


def micro_items(chk, ms, drops, rng):
    """(micro case, variant) pairs: every complete pattern, a sample of the patterns with a missing premise."""
    full = [m for m in ms if not m["drop"]]
    part = [m for m in ms if m["drop"]]
    rng.shuffle(full), rng.shuffle(part)
    items = []
    for i, m in enumerate(full):
        items.append((m, "iri"))
        items.append((m, rng.choice(VARIANTS[1:] if has_object_only(m) else ["bnode"])))
    items += [(m, rng.choice(VARIANTS)) for m in part[:drops]]
    rng.shuffle(items)
    return items


# ------------------------------------------------------------------- long and deep inputs
def deep(rng, n, k):
    """Derivations that need many rule cycles, long lists, many members.  k selects the shape."""
    f = counter()
    g = []
    T, S, D, R = "rdf:type", "rdfs:subClassOf", "rdfs:domain", "rdfs:range"
    if k == 0:          # existential chain: one step per cycle
        for i in range(n):
            r = "_:r%d" % i
            g += [(r, "owl:onProperty", "x:p"), (r, "owl:someValuesFrom", "x:C%d" % i), (r, S, "x:C%d" % (i + 1)),
                  ("x:i%d" % (i + 1), "x:p", "x:i%d" % i)]
        g.append(("x:i0", T, "x:C0"))
    elif k == 1:        # allValuesFrom chain backwards
        for i in range(n):
            r = "_:r%d" % i
            g += [(r, "owl:onProperty", "x:p"), (r, "owl:allValuesFrom", "x:C%d" % (i + 1)), ("x:C%d" % i, S, r),
                  ("x:i%d" % i, "x:p", "x:i%d" % (i + 1))]
        g.append(("x:i0", T, "x:C0"))
    elif k == 2:        # functional property zip: sameAs propagates along two chains
        g.append(("x:f", T, "owl:FunctionalProperty"))
        for i in range(n):
            g += [("x:a%d" % i, "x:f", "x:a%d" % (i + 1)), ("x:b%d" % i, "x:f", "x:b%d" % (i + 1))]
        g += [("x:z", "x:f", "x:a0"), ("x:z", "x:f", "x:b0")]
    elif k == 3:        # hierarchies and a transitive property
        for i in range(n):
            g += [("x:C%d" % i, S, "x:C%d" % (i + 1)), ("x:q%d" % i, "rdfs:subPropertyOf", "x:q%d" % (i + 1)),
                  ("x:j%d" % i, "x:t", "x:j%d" % (i + 1))]
        g += [("x:t", T, "owl:TransitiveProperty"), ("x:q%d" % (n // 2), D, "x:C%d" % (n // 2)), ("x:q%d" % (n // 2), R, "x:C1"),
              ("x:i", "x:q0", "x:k"), ("x:q%d" % n, "owl:inverseOf", "x:t")]
    elif k == 4:        # long lists
        els = ["x:C%d" % i for i in range(n)]
        for pred, head in (("owl:intersectionOf", "x:I"), ("owl:unionOf", "x:U")):
            h, ts = rlist(rng, els, f)
            g += ts + [(head, pred, h)]
        h, ts = rlist(rng, ["x:o%d" % i for i in range(n)], f)
        g += ts + [("x:O", "owl:oneOf", h), ("x:I2", T, "owl:Class")]
        g += [("x:m", T, c) for c in els] + [("x:o1", T, c) for c in els[:-1]] + [("x:o2", T, c) for c in els[1:]] + \
             [("x:d", T, "x:I"), ("x:e", T, els[-1]), ("x:w", T, els[n // 2])]
    elif k == 5:        # long property chain and key
        ps = ["x:p%d" % rng.randrange(max(2, n // 2)) for _ in range(n)]
        h, ts = rlist(rng, ps, f)
        g += ts + [("x:pc", "owl:propertyChainAxiom", h)]
        for j in range(2):
            for i, p in enumerate(ps):
                if not (j == 1 and i == n // 2):
                    g.append(("x:n%d_%d" % (j, i), p, "x:n%d_%d" % (j, i + 1)))
        g += [("x:n0_0", ps[0], "x:n1_1"), ("x:n0_%d" % (n - 1), ps[-1], "x:n1_0")]
    elif k == 6:
        ks = ["x:k%d" % i for i in range(n)]
        h, ts = rlist(rng, ks, f)
        g += ts + [("x:K", "owl:hasKey", h)]
        for j in range(4):
            g.append(("x:h%d" % j, T, "x:K")) if j != 3 else None
            for i, p in enumerate(ks):
                if not (j == 2 and i == n - 1):
                    g.append(("x:h%d" % j, p, "x:v%d" % (i % 3)))
    elif k == 7:        # equalities: a big clique, reached in different ways
        for i in range(n):
            g.append(("x:s%d" % i, "owl:sameAs", "x:s%d" % (i + 1)) if i % 2 else ("x:s%d" % (i + 1), "owl:sameAs", "x:s%d" % i))
        g += [("x:s0", "x:p", "x:o"), ("x:u", "x:s%d" % n, "x:v"), ("x:o", "x:q", "x:s1"), ("x:s2", T, "x:C")]
    elif k == 8:        # hierarchy loops with equivalences
        for i in range(n):
            g += [("x:C%d" % i, S, "x:C%d" % ((i + 1) % n)), ("x:q%d" % i, "rdfs:subPropertyOf", "x:q%d" % ((i + 1) % n))]
        g += [("x:i", T, "x:C0"), ("x:i", "x:q0", "x:j"), ("x:q1", D, "x:D0"), ("x:D0", "owl:equivalentClass", "x:D1"),
              ("x:q1", R, "x:D2"), ("x:D2", S, "x:D3"), ("x:E", "owl:equivalentProperty", "x:q2")]
    elif k == 9:        # max cardinalities with many values
        for j, extra in enumerate(([("owl:maxCardinality", '"1"^^xsd:nonNegativeInteger')],
                                   [("owl:maxQualifiedCardinality", '"1"^^xsd:nonNegativeInteger'), ("owl:onClass", "x:Q")],
                                   [("owl:maxQualifiedCardinality", '"1"^^xsd:nonNegativeInteger'), ("owl:onClass", "owl:Thing")])):
            r = "x:R%d" % j
            g += [(r, "owl:onProperty", "x:p%d" % j)] + [(r, a, b) for a, b in extra] + [("x:i%d" % j, T, r)]
            for i in range(n):
                g.append(("x:i%d" % j, "x:p%d" % j, "x:w%d_%d" % (j, i)))
                if i % 2:
                    g.append(("x:w%d_%d" % (j, i), T, "x:Q"))
    elif k == 10:       # keys with many values, combinations of which are shared
        ks = ["x:k%d" % i for i in range(2 + n % 2)]
        h, ts = rlist(rng, ks, f)
        g += ts + [("x:K", "owl:hasKey", h)]
        own = {}
        for j in range(n):
            g.append(("x:h%d" % j, T, "x:K"))
            for q, p in enumerate(ks):
                vs = {"x:v%d_%d_%d" % (q, j, m) for m in range(rng.randint(0, 2))}
                if j and rng.random() < .8 and own[j // 2, q]:
                    vs.add(rng.choice(sorted(own[j // 2, q])))
                own[j, q] = vs
                g += [("x:h%d" % j, p, v) for v in sorted(vs)]
    elif k == 11:       # branching property chains, several of them for one property
        for j, ps in enumerate((["x:a", "x:b", "x:a"], ["x:b", "x:b"], ["x:a"])):
            h, ts = rlist(rng, ps, f)
            g += ts + [("x:pc", "owl:propertyChainAxiom", h)]
        for _ in range(3 * n):
            g.append(("x:n%d" % rng.randrange(n), rng.choice(["x:a", "x:b"]), "x:n%d" % rng.randrange(n)))
    elif k == 12:       # class expressions on one another
        for i in range(n):
            els = rng.sample(["x:C%d" % j for j in range(n + 3)], rng.randint(1, 3))
            h, ts = rlist(rng, els, f)
            g += ts + [("x:C%d" % i, rng.choice(["owl:intersectionOf", "owl:unionOf"]), h)]
        for i in range(2 * n):
            g.append(("x:m%d" % rng.randrange(n // 2 + 1), T, "x:C%d" % rng.randrange(n + 3)))
    elif k == 13:       # two cycles for every step
        for i in range(n):
            g += [("x:R%d" % i, "owl:onProperty", "x:p%d" % i), ("x:R%d" % i, "owl:hasValue", "x:v"), ("x:p%d" % i, D, "x:R%d" % (i + 1))]
        g.append(("x:i", T, "x:R0"))
    return g


NDEEP = 14


def inputs(chk, rules, sem, packs, drops, specials, randoms, deeps, feats=None, allms=None, options=((False, False),), rsize=(6, 10), detours=None, overlapping=None):
    """The cases of a check."""
    rng = chk.rng("inputs")
    ms = allms if allms is not None else micro(chk, rules)
    cases = []
    opt = lambda: dict(zip(("ax", "dax"), rng.choice(list(options))))
    if packs:
        items = micro_items(chk, ms, drops, rng)
        if packs != "all":
            items = items[:packs * 20]
        for i in range(0, len(items), 20):
            cases += pack(items[i:i + 20], 20, "m%d-" % (i // 20), sem=sem, **opt())
        # the same rules, with premises that are conclusions of other rules
        ways = RDFSWAYS if sem == "rdfs" else None
        mine = [m for m in ms if sem == "rdfs" or m["rule"] not in RDFS]
        full = {}
        for m in mine:
            if not m["drop"]:
                full.setdefault(m["rule"], []).append(m)
        full = [v for k, v in sorted(full.items())]
        n, size = detours or (chk.pick(30, 200), 8)
        for i in range(0, n * size, size):
            g = []
            for j in range(size):
                m = rng.choice(full[(i + j) % len(full)]) if j % 4 else rng.choice(mine)
                h = concretise(m, rng.choice(["iri", "iri"] + VARIANTS), i + j)[0]
                g += distract(h, rng, .3) if j % 2 and not detours else h
            o = opt()
            cases.append(case("i%d" % i, indirect(g, rng, .35, allowed=ways), sem, rules=["detours"], **o))
        rngo = chk.rng("overlaps" + sem)
        for i, g in enumerate(overlaps(mine, rngo, *(overlapping or chk.pick((50, 5), (500, 5))))):
            o = dict(zip(("ax", "dax"), rngo.choice(list(options))))
            cases.append(case("o%d" % i, g, sem, rules=["overlaps"], **o))
        if overlapping is None:
            for i, g in enumerate(declared(mine, rngo, chk.pick(.7, 1))):
                cases.append(case("t%d" % i, g, sem, rules=["declared"]))
    full = [m for m in ms if not m["drop"]]
    for i in range(specials):
        m = rng.choice(full)
        for g in special(m, rng):
            cases.append(case("v%d" % i, g, sem, rules=[m["rule"]], **opt()))
    for i in range(randoms):
        fs = rng.sample(feats, min(len(feats), rng.randint(2, 9)))
        g = ontology(rng, schema=rng.randint(2, rsize[0]), facts=rng.randint(2, rsize[1]), feats=fs)
        if i % 4 == 1:
            g = indirect(g, rng, .3, allowed=RDFSWAYS if sem == "rdfs" else None)
        cases.append(case("r%d" % i, g, sem, rules=fs, **opt()))
        if i % 3 == 0:      # few names, many facts
            fs = rng.sample(feats, min(len(feats), rng.randint(1, 3)))
            g = ontology(rng, schema=rng.randint(1, 4), facts=rng.randint(8, 16), feats=fs, nC=2, nP=2, nI=4, lits=rng.random() < .3)
            cases.append(case("e%d" % i, g, sem, rules=fs, **opt()))
    for i, (k, n) in enumerate(deeps):
        cases.append(case("d%d-%d" % (k, n), deep(rng, n, k), sem, rules=["deep%d" % k], **opt()))
    return cases


def report(chk, results, rules, onetime=(), extra=None, lost=False, illegal=False):
    """Violations of this check's property among the verdicts."""
    sizes = []
    for c, v, msgs, fail in results:
        if fail:
            chk.violation("expansion of %s (%s) failed: %s" % (c["id"], c["sem"], fail.splitlines()[0]), dict(describe(c), failure=fail))
            continue
        sizes.append(v["size"])
        chk.cov["max_cycles"] = max(chk.cov.get("max_cycles", 0), v["cycles"])
        if v["ok"]:
            continue
        bad = []
        for r in rules:
            if v["open"] and r in v["open"]:
                bad.append("%s conclusions missing: %s" % (r, fmt(v["open"][r])))
        for r in onetime:
            if v["onetime"] and r in v["onetime"]:
                bad.append("%s missing: %s" % (r, fmt(v["onetime"][r])))
        if extra is not None:
            ex = [t for t in v["extra"] if extra(t)]
            if ex:
                bad.append("triples that do not follow: %s" % fmt(ex))
        if lost and v["lost"]:
            bad.append("input triples lost: %s" % fmt(v["lost"]))
        if illegal and v["illegal"]:
            bad.append("illegal triples: %s" % fmt(v["illegal"]))
        if bad:
            chk.violation("case %s (%s ax=%s dax=%s): %s" % (c["id"], c["sem"], c["ax"], c["dax"], "; ".join(bad)),
                          dict(describe(c), verdict=v))
    if sizes:
        chk.cov["largest_closure"] = max(sizes)
        chk.cov["mean_closure"] = round(sum(sizes) / len(sizes))
    for c, v, msgs, fail in results[:3]:
        chk.sample({"id": c["id"], "semantics": c["sem"], "input": [" ".join(t) for t in c["inp"]][:12]})
    chk.assumptions = ["RDFLib stores and returns triples faithfully", "TLC evaluates the specification correctly"]


any_ = lambda t: True
DEEPS_Q = [(0, 16), (1, 16), (2, 8), (3, 9), (4, 7), (5, 7), (6, 6), (7, 7), (8, 6), (9, 5), (10, 8), (10, 7), (11, 6), (12, 6), (13, 25)]
DEEPS_T = DEEPS_Q + [(0, 45), (1, 45), (2, 25), (3, 25), (4, 25), (5, 16), (6, 14), (7, 20), (8, 14), (9, 9), (10, 16), (10, 21), (10, 20), (11, 9), (11, 12), (12, 9), (12, 14), (13, 60)]


def literal_members(rng, k):
    """Chains, keys and lists of classes with members that are owl:sameAs a literal (eq-rep-o puts the
    literal into the cells, too)."""
    g = []
    for j in range(k):
        p = ["x:p%d_%d" % (j, i) for i in range(3)]
        ls = ["_:m%d_%d" % (j, i) for i in range(2)]
        g += [(ls[0], "rdf:first", p[0]), (ls[0], "rdf:rest", ls[1]), (ls[1], "rdf:first", p[1]), (ls[1], "rdf:rest", "rdf:nil")]
        same = [(q, "owl:sameAs", '"%s%d"' % (rng.choice("abcdefghijklmnopqrstuvwxyz"), j)) for q in p[:2]]
        same = same if j % 3 == 0 else [same[j % 2]]
        g += same
        if rng.random() < 0.6:
            # the literal is in the list, the resource is not
            hidden = {q: l for q, _, l in same}
            g[:] = [(s, q, hidden.get(o, o) if q == "rdf:first" else o) for s, q, o in g]
        a, b, c = ["x:i%d_%d" % (j, i) for i in range(3)]
        kind = rng.choice(["chain", "key", "oneOf"]) if j else "chain"
        if kind == "chain":
            g += [(p[2], "owl:propertyChainAxiom", ls[0]), (a, p[0], b), (b, p[1], c)]
        elif kind == "key":
            g += [(p[2], "owl:hasKey", ls[0]), (a, "rdf:type", p[2]), (b, "rdf:type", p[2])] + [(x, q, c) for x in (a, b) for q in p[:2]]
        else:
            g += [(p[2], "owl:oneOf", ls[0])]
    return g


def c01(chk):
    cases = inputs(chk, EQ | PRP, "owl", "all", chk.pick(400, 3000), chk.pick(80, 600), chk.pick(120, 1500),
                   chk.pick(DEEPS_Q, DEEPS_T), feats=POSITIVE)
    rng = chk.rng("members")
    for i in range(chk.pick(8, 40)):
        cases.append(case("m%d" % i, literal_members(rng, 5), "owl"))
    report(chk, validate(chk, cases), EQ | PRP, extra=any_)


CLSX = lambda t: t[1] in ("rdf:type", "owl:sameAs")


def c02(chk):
    cases = inputs(chk, CLS, "owl", "all", chk.pick(400, 3000), chk.pick(80, 600), chk.pick(120, 1500),
                   chk.pick(DEEPS_Q, DEEPS_T), feats=POSITIVE)
    report(chk, validate(chk, cases), CLS, extra=CLSX)


SCHEMA = ("rdfs:subClassOf", "rdfs:subPropertyOf", "rdfs:domain", "rdfs:range", "owl:equivalentClass", "owl:equivalentProperty")


def c03(chk):
    cases = inputs(chk, CAX | SCM, "owl", "all", chk.pick(400, 3000), chk.pick(80, 600), chk.pick(120, 1500),
                   chk.pick(DEEPS_Q, DEEPS_T), feats=POSITIVE)
    report(chk, validate(chk, cases), CAX | SCM, extra=lambda t: t[1] in SCHEMA or t[1] == "rdf:type")


# literals of several value spaces, with the value they denote
VALUES = {
    '"1"^^xsd:int': "dec:1", '"01"^^xsd:integer': "dec:1", '"1.0"^^xsd:decimal': "dec:1", '"+1"^^xsd:long': "dec:1",
    '"1"^^xsd:unsignedByte': "dec:1", '"2"^^xsd:byte': "dec:2", '"2"^^xsd:positiveInteger': "dec:2", '"2.50"^^xsd:decimal': "dec:2.5",
    '"2.5"^^xsd:decimal': "dec:2.5", '"0"^^xsd:integer': "dec:0", '"-0"^^xsd:int': "dec:0", '"0.0"^^xsd:decimal': "dec:0",
    '"1"^^xsd:float': "f:1", '"1.0"^^xsd:float': "f:1", '"10E-1"^^xsd:float': "f:1", '"1"^^xsd:double': "d:1", '"1.0E0"^^xsd:double': "d:1",
    '"0"^^xsd:double': "d:0", '"2.5"^^xsd:double': "d:2.5", '"2.5"^^xsd:float': "f:2.5",
    '"true"^^xsd:boolean': "b:true", '"1"^^xsd:boolean': "b:true", '"false"^^xsd:boolean': "b:false", '"0"^^xsd:boolean': "b:false",
    '"1"': "s:1", '"1"^^xsd:string': "s:1", '"1"^^xsd:token': "s:1", '"a"': "s:a", '"a"^^xsd:string': "s:a",
    '"a"^^xsd:normalizedString': "s:a", '"A"': "s:A", '"1"@en': "l:en:1", '"1"@fr': "l:fr:1", '"a"@en': "l:en:a", '"true"': "s:true",
    '"2000-01-01T00:00:00Z"^^xsd:dateTime': "t:0", '"2000-01-01T01:00:00+01:00"^^xsd:dateTime': "t:0",
    '"2000-01-01T00:00:01Z"^^xsd:dateTime': "t:1",
    '"2000-01-01"^^xsd:date': "D:0", '"0A"^^xsd:hexBinary': "h:0a", '"0a"^^xsd:hexBinary': "h:0a", '"Cg=="^^xsd:base64Binary': "6:0a",
    '"256"^^xsd:short': "dec:256", '"1"^^x:dt': "u:1", '"01"^^x:dt': "u:01", '"http://a"^^xsd:anyURI': "U:a", '"http://a"': "s:http://a",
}
ILL = ['"1"^^xsd:negativeInteger', '"0"^^xsd:positiveInteger', '"256"^^xsd:byte', '"abc"^^xsd:int', '"xyz"^^xsd:int', '"256"^^xsd:unsignedByte', '"256"^^xsd:unsignedByte', '"-"^^xsd:decimal']


def vlit(t):
    if t in VALUES:
        return {"t": t, "dt": t.rsplit("^^", 1)[1] if '"^^' in t else "", "ok": True,
                "num": {"dec:0": "0", "dec:1": "1"}.get(VALUES[t], "-"), "val": VALUES[t]}
    if t in ILL:
        return {"t": t, "dt": t.rsplit("^^", 1)[1], "ok": False, "num": "-", "val": ""}
    return lit(t)


def litgraph(rng, feats, n):
    g = ontology(rng, schema=rng.randint(0, 5), facts=rng.randint(0, 6), feats=feats, lits=False)
    pool = sorted(VALUES)
    for i in range(n):
        g.append((rng.choice(["x:i0", "x:i1", "x:i2", "_:i0"]), rng.choice(["x:p0", "x:p1", "rdfs:label", "rdf:_3"]), rng.choice(pool)))
    return g


FOUR = ((False, False), (True, False), (False, True), (True, True))


def c04(chk):
    rng = chk.rng("lit")
    cases = inputs(chk, RDFS, "rdfs", "all", chk.pick(100, 400), chk.pick(80, 400), chk.pick(150, 1200),
                   [(k, n) for k, n in chk.pick(DEEPS_Q, DEEPS_T) if k in (3, 8)] + [(3, 20)], feats=RDFS_FEATS, options=FOUR)
    for i in range(chk.pick(100, 800)):
        ax, dax = rng.choice(FOUR)
        cases.append(case("l%d" % i, litgraph(rng, RDFS_FEATS, rng.randint(2, 10)), "rdfs", ax, dax, facts=vlit))
    # all pairs of literals, ill-typed ones included
    pool = sorted(set(VALUES) | set(ILL))
    pairs = [(a, b) for i, a in enumerate(pool) for b in pool[i + 1:]]
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 12):
        cases.append(case("q%d" % i, [("x:s", "x:p%d_0" % j, a) for j, (a, b) in enumerate(pairs[i:i + 12])] +
                          [("x:s", "x:p%d_1" % j, b) for j, (a, b) in enumerate(pairs[i:i + 12])], "rdfs", facts=vlit))
    for i in range(chk.pick(10, 60)):
        g = litgraph(rng, RDFS_FEATS, 6) + [("x:i1", "x:p1", l) for l in rng.sample(ILL, 2)]
        cases.append(case("b%d" % i, g, "rdfs", facts=vlit))
    report(chk, validate(chk, cases), RDFS, onetime=("litcopy",), extra=any_, lost=True)


def rational(t):
    if not t.endswith("^^owl:rational"):
        return lit(t) if "." not in t else {"t": t, "dt": t.rsplit("^^", 1)[1], "ok": True, "num": "-", "val": ""}
    return {"t": t, "dt": "owl:rational", "ok": True, "num": "-", "val": "", "s": p_lexical.chars(json.loads(t[:t.rindex('"') + 1]))}


def c05(chk):
    cases = []
    rng = chk.rng("c05")
    ms = micro(chk, OWL | RDFS | SELF)
    for sem in ("comb", "ext", "extrdfs"):
        mine = [m for m in ms if (m["rule"] in OWL) or (m["rule"] in RDFS and sem != "ext") or m["rule"] in SELF]
        sub = [m for m in mine if m["rule"] in SELF] + rng.sample(mine, min(len(mine), chk.pick(300, 2500)))
        cs = inputs(chk, None, sem, "all", chk.pick(100, 1000), chk.pick(20, 200), chk.pick(60, 500),
                    chk.pick([(0, 6), (2, 5), (3, 5), (4, 5), (5, 5), (8, 4)], [(k, max(4, n // 2)) for k, n in DEEPS_T]),
                    feats=POSITIVE + ["cont"], allms=sub, options=((False, False),) * 5 + FOUR[1:], rsize=(6, 8), detours=(chk.pick(10, 80), 4), overlapping=(chk.pick(15, 120), 3))
        for c in cs:
            c["id"] = sem + "-" + c["id"]
        cases += cs
    # owl:rational
    import p_datatypes
    forms = [f for n in (1, 2, 3, 4, 5) for f in map("".join, itertools.product("+-01/", repeat=n)) if f.count("/") <= 2 and not re.fullmatch("[+-]?[01]+", f)]
    good = [f for f in forms if re.fullmatch("[+-]?[01]+/0*1[01]*", f)]
    near = [f for f in forms if 3 <= len(f) and "/" in f[1:-1]]
    odd = ["", "1/2/3", "4/2", "-14/3", "0/7", "007/0090", "1/0", "1.0/2", "1/2.0", "1e1/2", "x/2", "1/x", "3//4", "INF/1", "1_0/3", "1/1_0", "12345678901234567890/98765432109876543211",
           "1\\2", "1:2", "1/2x", "#1/2"]
    for i in range(chk.pick(10, 60)):
        ls = rng.sample(good, 6) + rng.sample(near, 10) + rng.sample(forms, 4) + rng.sample(odd, 6)
        g = [(rng.choice(["x:i0", "x:i1", "_:i0"]), rng.choice(["x:p", "x:q"]), json.dumps(f) + "^^owl:rational") for f in sorted(set(ls))]
        g += rng.sample([("x:p", "rdfs:range", "x:C"), ("x:i0", "x:p", '"1.5"^^xsd:decimal'), ("x:i1", "x:q", '"7"^^xsd:byte'), ("x:r", "rdf:type", "xsd:decimal"),
                         ("x:s", "rdf:type", "owl:rational"), ("x:q", "rdfs:range", "owl:rational"), ("x:t", "rdf:type", "xsd:short")], 3)
        cases.append(case("q%d" % i, g, ("ext", "extrdfs")[i % 2], facts=rational))
    res = validate(chk, cases, cpu=chk.pick(30, 60), maxout=chk.pick(4500, MAXOUT))
    for c, v, msgs, fail in res:
        if v and c["id"].startswith("q"):
            p_datatypes.ill_messages(chk, c, v, msgs)
    report(chk, [r for r in res if r[0]["id"].startswith("q")], {"prp-rng", "cax-sco"}, onetime=("binding", "littype", "restype"), extra=any_)
    res = [r for r in res if not r[0]["id"].startswith("q")]
    report(chk, res, OWL | RDFS | SELF, onetime=("binding",), extra=any_)
