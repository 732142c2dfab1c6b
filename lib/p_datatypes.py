"""C07: literals, typed resources, sameAs and disjointness of datatypes."""
import json, re
import impl
from closure import *
from p_closure import report, EQ
from p_lexical import chars

FORMS = {       # forms on both sides of the border of every lexical space
    "xsd:integer": ["0", "-5", "+7", "007", "12345678901234567890", "1.0", "abc", "", "1 ", "1e3", "1_0"],
    "xsd:nonNegativeInteger": ["0", "5", "-0", "-1", "1.0"], "xsd:positiveInteger": ["1", "0", "-1", "99"],
    "xsd:nonPositiveInteger": ["0", "-5", "1"], "xsd:negativeInteger": ["-1", "0", "1"],
    "xsd:long": ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"],
    "xsd:int": ["2147483647", "2147483648", "-2147483648", "-2147483649", "x"], "xsd:short": ["32767", "32768", "-32768", "-32769"],
    "xsd:byte": ["127", "128", "-128", "-129"], "xsd:unsignedLong": ["18446744073709551615", "18446744073709551616", "-1"],
    "xsd:unsignedInt": ["4294967295", "4294967296", "-1"], "xsd:unsignedShort": ["65535", "65536", "-1"], "xsd:unsignedByte": ["255", "256", "-1", "0"],
    "xsd:decimal": ["1.5", "-.5", "3.", "1e5", "NaN", "abc", "."], "xsd:float": ["1.5", "INF", "1e5", "0", "inf", "x"],
    "xsd:double": ["1.5E3", "-INF", "NaN", "0.0", "nan", "1e"], "xsd:boolean": ["true", "0", "1", "TRUE", "2", "yes"],
    "xsd:hexBinary": ["0aFF", "", "0a0", "xx"], "xsd:base64Binary": ["AQID", "AQ==", "A", "===="],
    "xsd:string": ["s", "", " x\n"], "xsd:normalizedString": ["a  b", "a\nb", "tab\t"], "xsd:token": ["a b", " a", "a  b"],
    "xsd:language": ["en", "en-US", "en_US", "abcdefghi"], "xsd:Name": ["a:b", "_x", "1a", "a b"], "xsd:NCName": ["ab", "a:b", "-a"],
    "xsd:NMTOKEN": ["1a", "-.:", "a b", ""], "xsd:anyURI": ["http://example.org/", "a/b"],
    "xsd:dateTime": ["2004-02-29T12:00:00", "2003-02-29T12:00:00", "2004-01-01T24:00:00Z", "2004-01-01"],
    "xsd:dateTimeStamp": ["2004-02-29T12:00:00Z", "2004-02-29T12:00:00", "2004-01-01T12:00:00-05:30"],
    "xsd:date": ["2004-02-29", "2004-2-29", "2004-02-30"], "xsd:time": ["23:59:59.5", "24:00:01", "12:00:00Z"],
    "rdf:XMLLiteral": ["<a/>", "text", "<a>", "<a/><b/>"], "rdf:HTML": ["<p>x</p>", "<p>"], "rdf:PlainLiteral": ["a@en", "a@", "a", "a\nb@en-us"],
}
UNSUPPORTED = ["xsd:gYear", "xsd:gMonthDay", "xsd:duration", "x:mydt"]
HAND = {("rdf:XMLLiteral", "<a>"): False}
ALLDT = sorted(FORMS) + ["rdfs:Literal", "rdf:langString"]


def tl(lex, dt):
    t = json.dumps(lex) + ("^^" + dt if dt else "")
    return impl.tostr(impl.toterm(t))       # RDFLib itself collapses the white space of tokens


def dlit(t):
    end = t.rindex('"')
    lex, rest = json.loads(t[:end + 1]), t[end + 1:]
    dt = rest[2:] if rest.startswith("^^") else ""
    f = {"t": t, "dt": dt, "ok": HAND.get((dt, lex), True), "num": "-", "val": ""}
    if dt in FORMS and dt not in ("rdf:XMLLiteral", "rdf:HTML", "xsd:anyURI"):
        f["s"] = chars(lex)
    if dt in ("xsd:nonNegativeInteger", "xsd:integer") and lex in ("0", "1"):
        f["num"] = lex
    return f


ALL = [tl(l, d) for d in FORMS for l in FORMS[d]]
OTHERS = [tl({"xsd:gMonthDay": "--12-25", "xsd:duration": "P1Y"}.get(d, "1999"), d) for d in UNSUPPORTED] + ['"plain"', '"tag"@en', '"tag"@en-US']


def graph(rng, nl, nr, ns, extra):
    lits = [rng.choice(ALL) if rng.random() < .85 else rng.choice(OTHERS) for _ in range(nl)]
    if rng.random() < .5:      # values of one datatype, so that several share it
        d = rng.choice(sorted(FORMS))
        lits += [tl(l, d) for l in rng.sample(FORMS[d], min(2, len(FORMS[d])))]
    R = ["x:r%d" % i for i in range(4)] + ["_:r0"]
    g = [(rng.choice(R), rng.choice(["x:p", "x:q", "rdfs:comment"]), l) for l in lits]
    for _ in range(nr):
        g.append((rng.choice(R), "rdf:type", rng.choice(ALLDT)))
    for _ in range(ns):
        g.append((rng.choice(R), "owl:sameAs", rng.choice(R + lits)))
    if extra:
        g += [("x:q", "rdfs:range", rng.choice(ALLDT)), ("x:C", "rdfs:subClassOf", rng.choice(ALLDT)), ("x:r1", "rdf:type", "x:C")][:extra]
    return g


ILL_MSG = re.compile(r"(?i)lexical|ill.?typed|does not match its datatype")


def ill_messages(chk, c, v, msgs):
    """Ill-typed literals are reported, and no others."""
    ill = {}
    for t in v["ill"]:
        end = t.rindex('"')
        ill[t] = (json.loads(t[:end + 1]), str(impl.toterm(t[end + 3:])))
    got = [m for m in msgs if ILL_MSG.search(m)]
    named = lambda m, x: x[0] in m and (x[1] in m or re.search(r"\b%s\b" % re.escape(x[1].split("#")[-1]), m))
    for t, x in sorted(ill.items()):
        if not any(named(m, x) for m in got):
            chk.violation("case %s: ill-typed literal %s is not reported" % (c["id"], t), dict(describe(c), messages=msgs))
    for m in got:
        if not any(named(m, x) for x in ill.values()):
            chk.violation("case %s: message about a literal that is not ill-typed: %s" % (c["id"], m), describe(c))
    if len(got) != len(set(got)):
        chk.violation("case %s: repeated message" % c["id"], dict(describe(c), messages=msgs))


LIKE = ["xsd:integer", "xsd:byte", "xsd:unsignedShort", "xsd:negativeInteger", "xsd:decimal", "xsd:boolean", "xsd:hexBinary", "xsd:dateTime", "xsd:language", "xsd:NCName", "xsd:double", "xsd:date"]


def user_case(cid, rng):
    """A subclass of a semantics adds datatypes; their lexical spaces are those of existing ones."""
    added = []
    for i in range(rng.choice([1, 1, 2, 3])):
        sup = rng.sample(LIKE + ["x:dt%d" % j for j in range(i)] + ["xsd:string", "rdfs:Literal"], rng.choice([0, 1, 1, 2]))
        added.append({"dt": "x:dt%d" % i, "like": rng.choice(LIKE), "supers": sup})
    if rng.random() < .3:       # a new superclass of an existing datatype
        added.append({"dt": rng.choice(["xsd:boolean", "xsd:hexBinary", "xsd:date", "xsd:double"]), "like": "", "supers": [added[0]["dt"]]})
        if added[0]["dt"] in added[-1]["supers"]:
            added[0]["supers"] = []
    like = {a["dt"]: a["like"] for a in added}

    def fact(t):
        f = dlit(t)
        if like.get(f["dt"]):
            f["like"] = like[f["dt"]]
            f["s"] = chars(json.loads(t[:t.rindex('"') + 1]))
        return f
    g = graph(rng, rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 2), 0)
    R = ["x:r%d" % i for i in range(4)]
    for a in added:
        forms = FORMS[a["like"] or a["dt"]]
        for l in rng.sample(forms, min(len(forms), rng.choice([0, 1, 2, 3]))):
            g.append((rng.choice(R), rng.choice(["x:p", "x:q", "owl:sameAs"]), json.dumps(l) + "^^" + a["dt"]))
        if rng.random() < .4:
            g.append((rng.choice(R), "rdf:type", a["dt"]))
    how = rng.choice(["added"] * 3 + ["unlisted", "over"])
    c = case(cid, g or [("x:s", "x:p", "x:o")], rng.choice(["comb", "ext", "extrdfs"]), facts=fact if how == "added" else dlit)
    return dict(c, register=added, how=how, style=rng.choice(["init", "list", "key"]), **({"added": added} if how == "added" else {}))


def run_user(c):
    """how: added - the literals have to be treated accordingly; unlisted - but not in the list of datatypes; over - the
    subclass was used for another graph before"""
    import owlrl, rdflib
    from owlrl.DatatypeHandling import AltXSDToPYTHON
    from owlrl.XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
    base, rdfs = impl.CLASSES[c["sem"]]

    class User(base):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            for a in c["register"]:
                d, sup = impl.toterm(a["dt"]), [impl.toterm(x) for x in a["supers"]]
                conv = AltXSDToPYTHON[impl.toterm(a["like"] or a["dt"])]
                kw = {"subsumption_dict": OWL_Datatype_Subsumptions, "subsumption_list": sup}
                if not a["like"] or c["style"] == "key":
                    kw["subsumption_key"] = d
                if not sup:     # no supers, said in different ways
                    kw = {"init": kw, "key": {"subsumption_dict": OWL_Datatype_Subsumptions}, "list": {"subsumption_list": [rdflib.RDFS.Literal]}}[c["style"]] if a["like"] else {}
                self.add_new_datatype(d, conv, None if c["how"] == "unlisted" else OWL_RL_Datatypes if a["like"] else [], **({} if c["how"] == "unlisted" else kw))
    g = impl.build(c["inp"])
    if c["how"] == "over":
        owlrl.DeductiveClosure(User, rdfs_closure=rdfs).expand(impl.build(c["inp"]))
        impl.expand(g, c["sem"])
    else:
        owlrl.DeductiveClosure(User, rdfs_closure=rdfs).expand(g)
    return impl.split_errors(g)


def c07(chk):
    rng = chk.rng("c07")
    cases = []
    for i, d in enumerate(sorted(FORMS)):       # every form of every datatype, once alone
        for j, l in enumerate(FORMS[d]):
            cases.append(case("f%d-%d" % (i, j), [("x:s", "x:p", tl(l, d))], facts=dlit))
    for i, d in enumerate(ALLDT):               # every typed resource, alone and through sameAs
        cases.append(case("t%d" % i, [("x:s", "rdf:type", d), ("x:t", "owl:sameAs", "x:s"), ("x:u", "owl:sameAs", "x:t")], facts=dlit))
        if d in FORMS:
            cases.append(case("u%d" % i, [("x:s", "owl:sameAs", tl(FORMS[d][0], d)), ("x:s", "x:p", "x:o"), ("x:t", "owl:sameAs", "x:s")], facts=dlit))
    pairs = [(a, b) for i, a in enumerate(ALLDT) for b in ALLDT[i + 1:]]
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 4) if chk.thorough else range(0, 240, 4):      # pairs of datatypes: disjointness
        g = []
        for j, (a, b) in enumerate(pairs[i:i + 4]):
            g += [("x:a%d" % j, "rdf:type", a), ("x:b%d" % j, "rdf:type", b)]
        cases.append(case("p%d" % i, g[:2] if i % 3 else g, facts=dlit))
    sems = ["owl"] * 4 + ["comb", "ext", "extrdfs"]
    for i in range(chk.pick(150, 2500)):
        sem = rng.choice(sems)
        cases.append(case("r%d" % i, graph(rng, rng.randint(0, 5), rng.randint(0, 3), rng.randint(0, 3), rng.choice([0, 0, 0, 1, 3])), sem, facts=dlit))
    res = validate(chk, cases)
    rng = chk.rng("user")
    res += validate(chk, [user_case("u-%d" % i, rng) for i in range(chk.pick(80, 1200))], runner=run_user)
    dts = set(ALLDT) | {"rdfs:Datatype", "owl:rational", "xsd:gYear", "xsd:duration", "x:mydt"}
    report(chk, res, EQ & {"eq-sym", "eq-rep-s", "eq-rep-o"}, onetime=("littype", "restype", "declared", "disjoint"),
           extra=lambda t: t[1] in ("owl:disjointWith",) or t[1] == "rdf:type" and (t[2] in dts or t[0].startswith('"')))
    for c, v, msgs, fail in res:
        if v:
            ill_messages(chk, c, v, msgs)
    chk.cov["ill_typed_literals"] = sum(len(v["ill"]) for c, v, m, f in res if v)
