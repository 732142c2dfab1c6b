"""C16: expansion of arbitrary graphs; structures of broken collections from spec/MCMalformed.tla, inferences from the good part by spec/RobustTrace.tla."""
import json
import rdflib
import impl
from closure import *

SEMS = ["rdfs", "owl", "owl", "comb", "ext", "extrdfs", "trim", "trimrdfs"]
VOCAB = ["rdf:type", "rdf:Property", "rdf:List", "rdf:first", "rdf:rest", "rdf:nil", "rdf:value", "rdf:_1", "rdf:Bag", "rdfs:Resource", "rdfs:Class", "rdfs:Literal", "rdfs:Datatype", "rdfs:subClassOf",
         "rdfs:subPropertyOf", "rdfs:domain", "rdfs:range", "rdfs:member", "rdfs:Container", "rdfs:ContainerMembershipProperty", "rdfs:label", "owl:Thing", "owl:Nothing", "owl:Class", "owl:Restriction",
         "owl:sameAs", "owl:differentFrom", "owl:equivalentClass", "owl:equivalentProperty", "owl:inverseOf", "owl:FunctionalProperty", "owl:InverseFunctionalProperty", "owl:SymmetricProperty",
         "owl:TransitiveProperty", "owl:IrreflexiveProperty", "owl:AsymmetricProperty", "owl:propertyDisjointWith", "owl:AllDisjointProperties", "owl:AllDisjointClasses", "owl:AllDifferent",
         "owl:members", "owl:distinctMembers", "owl:propertyChainAxiom", "owl:hasKey", "owl:sourceIndividual", "owl:assertionProperty", "owl:targetIndividual", "owl:targetValue", "owl:intersectionOf",
         "owl:unionOf", "owl:oneOf", "owl:complementOf", "owl:disjointWith", "owl:someValuesFrom", "owl:allValuesFrom", "owl:hasValue", "owl:hasSelf", "owl:onProperty", "owl:onClass", "owl:maxCardinality",
         "owl:maxQualifiedCardinality", "owl:onDatatype", "owl:withRestrictions", "owl:onDataRange", "owl:NegativePropertyAssertion", "owl:ObjectProperty", "owl:DatatypeProperty", "owl:Ontology",
         "owl:imports", "owl:rational", "xsd:integer", "xsd:string", "xsd:minInclusive", "xsd:pattern", "rdf:PlainLiteral", "rdf:XMLLiteral", "err:ErrorMessage", "err:error", "rdf:langString"]
LISTS = ["owl:intersectionOf", "owl:unionOf", "owl:oneOf", "owl:propertyChainAxiom", "owl:hasKey", "adf", "adm", "adc", "adp", "owl:withRestrictions"]
DTS = ["xsd:" + d for d in ("integer decimal float double boolean date time dateTime dateTimeStamp gYear gMonth gDay gYearMonth gMonthDay hexBinary base64Binary anyURI string token language Name NCName NMTOKEN "
                            "normalizedString byte unsignedLong nonPositiveInteger positiveInteger negativeInteger nonNegativeInteger duration dayTimeDuration yearMonthDuration QName NOTATION ENTITY "
                            "IDREFS anySimpleType anyType nothing").split()] + ["rdf:PlainLiteral", "rdf:XMLLiteral", "rdf:HTML", "rdf:langString", "rdf:JSON", "rdfs:Literal", "rdfs:Resource", "owl:rational", "owl:real", "owl:Thing", "x:dt"]
LEXES = ["", " ", "abc", "0", "-0", "+", "-", ".", "1.", "1e", "1e5", "9" * 40, "9" * 5000, "-" + "9" * 400, "1e999999999", "0." + "0" * 400 + "1", "NaN", "nan", "INF", "-INF", "+INF", "Infinity", "true", "TRUE", "1/0", "0/0", "1/3",
         "1/2/3", "0000-01-01", "-0001-01-01", "10000-01-01", "99999-12-31T23:59:59Z", "2000-02-30", "2000-01-01T24:00:00", "2000-01-01T23:59:60", "0001-01-01T00:00:00+14:00", "9999-12-31T23:59:59-14:00", "23:59:59", "25:00:00", "00:00:00.0000000000001",
         "2000-01-01T00:00:00+99:99", "--02-30", "--13", "---32", "---31", "0000", "10000", "-0001", "99999999999999", "0f", "0", "zz", "AA=", "AA==", "====", "é", "\u0000", "\ud7ff", "😀", "\n", "\t a  b ", "a" * 3000, "@", "a@", "@en", "a@b@c",
         "a@en-", "<a>", "<a/>", "<a xmlns:b='u'/>", "<b:a/>", "&amp;", "&x;", "<![CDATA[x]]>", "<!DOCTYPE a [<!ENTITY b 'c'>]><a>&b;</a>", "<?x y?>", "]]>", "{}", "[", "P1Y", "P", "-P1D", "PT1.5S", "%", "http://[", "a b", "1_000", "٣", "0x10", "1,5", "$"]


def odd_literal(rng):
    l, d = rng.choice(LEXES), rng.choice(DTS + ["", "@en", "@x-klingon"])
    return json.dumps(l) + ("^^" + d if d[:1] not in ("", "@") else d)


def facts(t):
    try:
        return lit(t)
    except ValueError:
        return {"t": t, "dt": "", "ok": True, "num": "-", "val": ""}


class Mix:
    """A graph with a good part."""

    def __init__(self, rng):
        self.rng, self.good, self.bad, self.f = rng, [], [], counter()

    def base(self, schema=4, facts_=5, rdfs=False):
        fs = self.rng.sample(RDFS_FEATS, 4) if rdfs else self.rng.sample(POSITIVE, 4)
        self.good += ontology(self.rng, schema=schema, facts=facts_, feats=fs, nC=3, nP=3, nI=4)
        return self

    def list_item(self, s, cons=None):
        """A construct over a collection of this structure."""
        rng, n = self.rng, next(self.f)
        iri = rng.random() < .3
        names = {"c%d" % (i + 1): ("x:k%d_%d" if iri else "_:k%d_%d") % (n, i) for i in range(len(s["first"]))}
        x = lambda a: "x:%s%d" % (a, n)
        cons = cons or rng.choice(LISTS)
        names.update(a=x("a"), b=x("b"), lit=rng.choice(['"l"', '"7"^^xsd:integer', '"l"@en']), nil="rdf:nil", iri=x("nolist"))
        cells = [(names["c%d" % (i + 1)], p, names[o]) for p, k in (("rdf:first", "first"), ("rdf:rest", "rest")) for i, os in enumerate(s[k]) for o in os]
        h = names["c1"]
        if cons == "owl:withRestrictions":
            ax = [(x("F"), "rdf:type", "rdfs:Datatype"), (x("F"), "owl:onDatatype", "xsd:integer"), (x("F"), cons, h)]
            use = [(x("a"), "xsd:minInclusive", '"1"^^xsd:integer'), (x("b"), "xsd:maxInclusive", '"100"^^xsd:integer'), (x("i"), x("p"), '"7"^^xsd:integer')]
        elif cons in ("owl:intersectionOf", "owl:unionOf", "owl:oneOf"):
            ax = [(x("H"), cons, h)]
            use = [(x("i"), "rdf:type", x("a")), (x("i"), "rdf:type", x("b")), (x("j"), "rdf:type", x("H")), (x("k"), "rdf:type", x("a"))]
        elif cons == "owl:propertyChainAxiom":
            ax = [(x("P"), cons, h)]
            use = [(x("i"), x("a"), x("j")), (x("j"), x("b"), x("k")), (x("k"), x("a"), '"l"')]
        elif cons == "owl:hasKey":
            ax = [(x("K"), cons, h)]
            use = [(y, "rdf:type", x("K")) for y in (x("i"), x("j"))] + [(y, p, v) for y in (x("i"), x("j")) for p, v in ((x("a"), x("v")), (x("b"), '"l"'))]
        else:
            cls, pred = {"adf": ("AllDifferent", "members"), "adm": ("AllDifferent", "distinctMembers"), "adc": ("AllDisjointClasses", "members"), "adp": ("AllDisjointProperties", "members")}[cons]
            ax = [(x("d"), "rdf:type", "owl:" + cls), (x("d"), "owl:" + pred, h)]
            use = {"adc": [(x("i"), "rdf:type", x("a")), (x("i"), "rdf:type", x("b"))], "adp": [(x("i"), x("a"), x("j")), (x("i"), x("b"), x("j"))]}.get(cons, [(x("a"), "owl:sameAs", x("b"))])
        self.good += use
        (self.good if s["ok"] else self.bad).extend(ax + cells)

    def odd_number(self):
        return self.rng.choice(['"1"', '"1"@en', '"1"^^xsd:string', '"abc"^^xsd:integer', '"-1"^^xsd:integer', '"1.5"^^xsd:decimal', '"1.0"^^xsd:double', '"NaN"^^xsd:double', '"INF"^^xsd:double', '"1e400"^^xsd:double',
                                '"%s"^^xsd:integer' % ("9" * 400), '"%s"^^xsd:nonNegativeInteger' % ("9" * 5000), '"01"^^xsd:nonNegativeInteger', '"+0"^^xsd:integer', '"true"^^xsd:boolean', '""^^xsd:nonNegativeInteger', '""',
                                '"2000-01-01"^^xsd:date', '"1"^^x:dt', '"0/1"^^owl:rational', "x:one", "_:one", "rdf:nil", '"1"^^xsd:nonNegativeInteger', '"0"^^xsd:nonNegativeInteger', '"NaN"^^xsd:decimal', '"٣"^^xsd:integer',
                                '"0.0"^^xsd:decimal', '"-0"^^xsd:integer', odd_literal(self.rng)])

    def restriction(self):
        """A restriction with unexpected, missing or repeated parts."""
        rng, n = self.rng, next(self.f)
        r = rng.choice(["_:r%d", "x:r%d"]) % n
        x = lambda a: "x:%s%d" % (a, n)
        anything = lambda: rng.choice(['"5"', '"abc"^^xsd:integer', x("o"), "_:u%d" % n, "rdf:nil", "owl:Thing", "owl:Nothing", r, rng.choice(VOCAB), odd_literal(rng)])
        k = rng.choice(["owl:maxCardinality", "owl:maxQualifiedCardinality", "owl:maxCardinality", "owl:maxQualifiedCardinality", "owl:hasValue", "owl:someValuesFrom", "owl:allValuesFrom", "owl:hasSelf", "owl:complementOf", "owl:minCardinality", "owl:cardinality"])
        ts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            ts.append((r, "owl:onProperty", rng.choice([x("p"), x("p"), x("p"), anything()])))
        for _ in range(rng.choice([1, 1, 2])):
            ts.append((r, k, self.odd_number() if "ardinality" in k else anything()))
        if "Qualified" in k:
            for _ in range(rng.choice([0, 1, 1, 2])):
                ts.append((r, rng.choice(["owl:onClass", "owl:onClass", "owl:onDataRange"]), rng.choice([x("C"), "owl:Thing", anything()])))
        self.bad += ts
        self.good += [(x("i"), x("p"), x("j")), (x("i"), x("p"), '"5"^^xsd:integer'), (x("j"), "rdf:type", x("C")), (x("k"), x("p"), x("i"))]
        if rng.random() < .7:
            self.bad += [(x("i"), "rdf:type", r), (x("j"), "rdf:type", r)]

    def npa(self):
        rng, n = self.rng, next(self.f)
        for p in ("owl:sourceIndividual", "owl:assertionProperty", "owl:targetIndividual", "owl:targetValue"):
            for _ in range(rng.choice([0, 1, 1, 2])):
                self.bad.append(("_:n%d" % n, p, rng.choice(["x:i0", "x:p0", "x:i1", "_:z", '"5"', "rdf:type", odd_literal(rng)])))

    def vocabulary(self, k):
        rng = self.rng
        for _ in range(k):
            n = lambda: rng.choice(VOCAB) if rng.random() < .7 else rng.choice(["x:C0", "x:p0", "x:i0", "_:b", "rdf:_0", "rdf:_01", "rdf:_x", "rdf:_", "rdf:_-1", "rdf:_99999999999999999999", "rdf:_٣", "rdf:_²", "rdf:_1_0", "<>", "<a>", "<http://[>", "<urn:\u00e9>", "<urn:a b>", "rdf:", "xsd:", "owl:"])
            self.bad.append((n(), n(), n() if rng.random() < .8 else odd_literal(rng)))

    def literals(self, k):
        rng = self.rng
        for _ in range(k):
            self.bad.append((rng.choice(["x:i0", "x:i1", "_:b", "x:new"]), rng.choice(["x:p0", "x:p1", "x:q", "rdfs:label", "rdf:value"]), odd_literal(rng)))

    def datatype(self, s):
        """A datatype definition with something wrong."""
        rng, n = self.rng, next(self.f)
        d = rng.choice(["x:D%d", "_:D%d"]) % n
        base = rng.choice(DTS + [d, "rdf:nil", "_:nothing", '"abc"', "xsd:integer", "xsd:decimal", "xsd:string", "xsd:hexBinary", "rdf:PlainLiteral", "xsd:dateTime", "xsd:float"])
        ts = [(d, "rdf:type", "rdfs:Datatype")] + [(d, "owl:onDatatype", base) for _ in range(1)]
        if rng.random() < .2:
            ts.append((d, "owl:onDatatype", rng.choice(DTS)))
        names = {"c1": "_:m%d_0" % n, "c2": "_:m%d_1" % n, "a": "_:ma%d" % n, "b": "_:mb%d" % n, "lit": '"l"', "nil": "rdf:nil", "iri": "x:nolist%d" % n}
        if rng.random() < .5:
            s = {"first": [["a"], ["b"]], "rest": [["c2"], ["nil"]]}
        ts += [(names["c%d" % (i + 1)], p, names[o]) for p, k in (("rdf:first", "first"), ("rdf:rest", "rest")) for i, os in enumerate(s[k]) for o in os]
        ts.append((d, "owl:withRestrictions", rng.choice([names["c1"]] * 6 + ["rdf:nil", '"l"', d])))
        for e in ("a", "b"):
            for _ in range(rng.choice([1, 1, 2])):
                f = rng.choice(["xsd:minInclusive", "xsd:maxInclusive", "xsd:minExclusive", "xsd:maxExclusive", "xsd:length", "xsd:minLength", "xsd:maxLength", "xsd:pattern", "rdf:langRange", "xsd:totalDigits", "x:f"])
                ts.append((names[e], f, rng.choice([self.odd_number(), '"((("', '"[a-"', '"*"', '"\\\\p{L}"', '"a{99999999999}"', '"(?P<x"', '"en"', '"*-"', '""', odd_literal(rng)])))
        self.bad += ts
        self.bad += [("x:i0", "x:p0", rng.choice(['"5"^^xsd:integer', '"a"^^xsd:string', '"0A"^^xsd:hexBinary', '"a@en"^^rdf:PlainLiteral', '"NaN"^^xsd:float', '"5"^^' + (d if d.startswith("x:") else "xsd:int"), odd_literal(rng)]))]
        if rng.random() < .6:
            r = "_:dr%d" % n
            self.bad += [(r, "owl:onProperty", "x:p0"), (r, rng.choice(["owl:allValuesFrom", "owl:someValuesFrom"]), d), ("x:i0", "rdf:type", r)]

    def case(self, cid, sem, rng=None):
        rng = self.rng
        bad = {tuple(t) for t in self.bad if not t[0].startswith('"') and not t[1].startswith('"')}
        return case(cid, self.good, sem, rng.random() < .35, rng.random() < .35, bad=sorted(bad), facts=facts,
                    improved=rng.random() < .8, how=rng.choice(["plain"] * 8 + ["dataset", "union", "dest", "cg"]))


def runner(c):
    sys.setrecursionlimit(1000)     # (the default)
    ts = list(c["inp"]) + list(c["bad"])
    if c["how"] in ("dataset", "union", "cg"):
        ds = rdflib.ConjunctiveGraph() if c["how"] == "cg" else rdflib.Dataset(default_union=c["how"] == "union")
        gs = [ds, ds.get_context(rdflib.URIRef("urn:x#g1")) if c["how"] == "cg" else ds.graph(rdflib.URIRef("urn:x#g1")), ds.get_context(rdflib.BNode("gb")) if c["how"] == "cg" else ds.graph(rdflib.BNode("gb"))]
        for i, t in enumerate(ts):
            gs[i % 3].add(impl.triple(t))
        impl.expand(ds, c["sem"], c["ax"], c["dax"], improved=c["improved"])
        g = rdflib.Graph()
        for s, p, o, *_ in ds.quads((None, None, None, None)):
            g.add((s, p, o))
    elif c["how"] == "dest":
        ds = rdflib.Dataset()
        src = impl.build(ts, ds.graph(rdflib.URIRef("urn:x#src")))
        d = ds.graph(rdflib.URIRef("urn:x#dst"))
        impl.expand(src, c["sem"], c["ax"], c["dax"], destination=d, improved=c["improved"])
        g = src + d
    else:
        g = impl.build(ts)
        impl.expand(g, c["sem"], c["ax"], c["dax"], improved=c["improved"])
    known = {x for t in c["inp"] for x in t}
    out = []
    for t in g:
        t = tuple(impl.striple(t))
        # (what is said of other blank nodes and literals cannot follow from the good part)
        if all(x in known or x[0] not in '_"<' for x in t):
            out.append(t)
    return sorted(set(out)), []


def c16(chk):
    rng = chk.rng("c16")
    lines, st = chk.model("MCMalformed", env={"CELLS": "2"})
    two = sorted(tagged(lines, "LIST"), key=lambda s: json.dumps(s, sort_keys=True))
    chk.cov["collections_of_two_cells"] = len(two)
    lines, st = chk.model("MCMalformed", env={"CELLS": "3"})
    three = sorted(tagged(lines, "LIST"), key=lambda s: json.dumps(s, sort_keys=True))
    for s in two + three:
        for k in ("first", "rest"):
            s[k] = [sorted(v) for v in s[k]]
    chk.cov["collections_of_three_cells"] = len(three)
    cases = []
    # every structure of two cells, in some construct (thorough: several)
    structs = []
    for _ in range(chk.pick(1, 4)):
        rng.shuffle(two)
        structs += two
    structs += rng.sample(three, chk.pick(600, len(three)))
    for i in range(0, len(structs), 24):
        m = Mix(rng)
        m.base(3, 4)
        for s in structs[i:i + 24]:
            m.list_item(s)
        cases.append(m.case("l%d" % (i // 24), rng.choice(["owl"] * 5 + ["ext", "comb", "rdfs"])))
    for kind, n in (("r", chk.pick(60, 1000)), ("v", chk.pick(80, 1200)), ("o", chk.pick(80, 1200)), ("d", chk.pick(90, 1500)), ("m", chk.pick(40, 800))):
        for i in range(n):
            m = Mix(rng)
            sem = rng.choice(SEMS if kind not in "rd" else SEMS[1:])
            m.base(3, 5, sem == "rdfs")
            if kind in "rm":
                for _ in range(rng.randint(1, 4)):
                    m.restriction()
                if rng.random() < .4:
                    m.npa()
            if kind in "vm":
                m.vocabulary(rng.randint(1, 4))
            if kind in "om":
                m.literals(rng.randint(1, 10))
            if kind in "dm":
                sem = rng.choice(["ext", "extrdfs", "trim", "trimrdfs", "ext", "owl"]) if kind == "d" else sem
                for _ in range(rng.randint(1, 3)):
                    m.datatype(rng.choice(two))
            cases.append(m.case("%s%d" % (kind, i), sem))
    cases += facet_cases(chk, rng)
    cases += long_cases(chk, rng)
    for c, v, msgs, fail in robust(chk, cases):
        if fail:
            chk.violation("case %s (%s, %s%s%s): %s" % (c["id"], c["sem"], c["how"], ", axioms" if c["ax"] else "", ", datatype axioms" if c["dax"] else "", fail), {"input": c["inp"], "bad": c["bad"], "failure": fail})
        elif v["missing"]:
            chk.violation("case %s (%s): not inferred although it does not depend on the malformed part: %s" % (c["id"], c["sem"], fmt(v["missing"])), {"input": c["inp"], "bad": c["bad"], "sem": c["sem"], "missing": v["missing"]})
    for c in cases[-3:]:
        chk.sample({"id": c["id"], "malformed": [" ".join(t)[:80] for t in c["bad"]][:10]})
    chk.assumptions = ["an expansion of a small graph that takes more than 60 s of CPU time counts as not terminating, unless the specified closure is big"]


VALUED = ['"5"^^xsd:integer', '"5.5"^^xsd:decimal', '"NaN"^^xsd:double', '"1"^^xsd:float', '"abc"', '"b"^^xsd:string', '"2001-01-01T00:00:00"^^xsd:dateTime', '"2001-01-01T00:00:00Z"^^xsd:dateTime', '"2001-01-01"^^xsd:date',
          '"12:00:00"^^xsd:time', '"12:00:00Z"^^xsd:time', '"true"^^xsd:boolean', '"0A"^^xsd:hexBinary', '"AQ=="^^xsd:base64Binary', '"a@en"^^rdf:PlainLiteral', '"x"@en', '"1/2"^^owl:rational', '"P1Y"^^xsd:duration', '"<a/>"^^rdf:XMLLiteral']
FACETS = ["xsd:minInclusive", "xsd:maxInclusive", "xsd:minExclusive", "xsd:maxExclusive", "xsd:length", "xsd:minLength", "xsd:maxLength", "xsd:pattern", "rdf:langRange"]


def facet_cases(chk, rng):
    """Every base datatype meets every facet with a value of every kind, and literals of the restricted datatype itself and of its base:
    the values need not be comparable, have a length, or be strings."""
    bases = sorted(set(DTS) | {"xsd:integer", "xsd:decimal", "xsd:string", "xsd:hexBinary", "xsd:base64Binary", "rdf:PlainLiteral", "xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time", "xsd:float", "xsd:double"})
    combos = [(b, f, v) for b in bases for f in FACETS for v in VALUED]
    chk.cov["facet_values"] = len(combos)
    rng.shuffle(combos)
    out, step = [], 60
    for i in range(0, len(combos), step):
        m = Mix(rng)
        m.base(2, 3)
        for j, (b, f, v) in enumerate(combos[i:i + step]):
            d, l = "x:D%d" % j, "_:fl%d" % j
            m.bad += [(d, "rdf:type", "rdfs:Datatype"), (d, "owl:onDatatype", b), (d, "owl:withRestrictions", l), (l, "rdf:first", "_:fv%d" % j), (l, "rdf:rest", "rdf:nil"), ("_:fv%d" % j, f, v)]
            for w in [v] + rng.sample(VALUED, 2):
                lex = w[:w.rindex('"') + 1]
                m.bad += [("x:new", "x:q", "%s^^%s" % (lex, d)), ("x:new", "x:q", "%s^^%s" % (lex, b))]
        out.append(m.case("f%d" % (i // step), rng.choice(["ext", "ext", "extrdfs", "trim", "trimrdfs"])))
    return out


def long_cases(chk, rng):
    """Long collections and chains of every kind (recursion, repeated work)."""
    out = []
    n = chk.pick(1500, 4000)
    f = counter()
    for i, cons in enumerate(LISTS[:5]):
        m = Mix(rng)
        h, ts = rlist(rng, ["x:e%d" % (j % 50) for j in range(n)], f)
        m.bad += ts + [("x:H", cons, h), ("x:i", "x:e0", "x:j"), ("x:j", "x:e0", "x:i"), ("x:i", "rdf:type", "x:e1"), ("x:i", "rdf:type", "x:H")]
        m.base(2, 3)
        out.append(dict(m.case("long%d" % i, "owl"), bigcpu=1))
    # a chain over properties that connect everything with everything
    m = Mix(rng)
    h, ts = rlist(rng, ["x:e"] * 40, f)
    m.good += ts + [("x:H", "owl:propertyChainAxiom", h)] + [(a, "x:e", b) for a in ("x:i", "x:j", "x:k") for b in ("x:i", "x:j", "x:k")]
    out.append(m.case("dense", "owl"))
    # keys with many properties, several values each
    m = Mix(rng)
    h, ts = rlist(rng, ["x:k%d" % i for i in range(40)], f)
    m.good += ts + [("x:K", "owl:hasKey", h), ("x:i", "rdf:type", "x:K"), ("x:j", "rdf:type", "x:K")]
    m.good += [(a, "x:k%d" % i, b) for i in range(40) for a, b in (("x:i", "x:v"), ("x:j", "x:v"), ("x:i", "x:a"), ("x:j", "x:b"), ("x:i", "x:c"))]
    out.append(m.case("keys", "owl"))
    out = [dict(c, how="plain", ax=False, dax=False, improved=True) for c in out]
    for i, sem in enumerate(["rdfs", "owl", "comb", "ext", "extrdfs", "trim", "trimrdfs"]):
        for ax in (False, True):
            out.append(dict(case("empty%d%s" % (i, ax), [], sem, ax, not ax), bad=[], how="plain", improved=True))
    return out


def robust(chk, cases):
    todo, res = [], []
    suspects = []
    for c, (st, v) in zip(cases, pmap(runner, cases, cpu=chk.pick(60, 120), chunksize=1)):
        if st == "ok":
            todo.append(dict(c, out=v[0]))
        elif st == "exception":
            res.append((c, None, [], v))
        else:
            suspects.append((c, v))
    for c, v in suspects[:4]:
        try:
            size = judge_tlc(chk, [dict(case(c["id"], list(c["inp"]) + list(c["bad"]), c["sem"].replace("trim", "ext"), c["ax"], c["dax"], facts=facts), out=[], msgs=[])], "ClosureTrace", "VERDICT", 60)[c["id"]]["size"]
            if size <= SMALL:
                res.append((c, None, [], "no result: %s, although the closure has %d triples" % (v, size)))
                continue
        except MachineryError:
            pass
        chk.cov["too_big"] = chk.cov.get("too_big", 0) + 1
    # (the trimmed semantics only promises what is not trivial)
    judged = [c for c in todo if not c["sem"].startswith("trim")]
    verdicts = judge_tlc(chk, [{k: v for k, v in c.items() if k != "bad"} for c in judged], "RobustTrace", "VERDICT", 800)
    chk.cov["traces_validated_against_impl"] += len(todo)
    chk.cov["inferences_required"] = sum(v["size"] for v in verdicts.values())
    return res + [(c, verdicts[c["id"]], [], None) for c in judged]
