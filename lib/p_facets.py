"""C09: restricted datatypes, validated by spec/FacetTrace.tla; combinations of facets from spec/MCFacets.tla."""
import datetime, base64, json, re
import impl
from closure import *

DOWN = {"xsd:integer": ["xsd:integer", "xsd:int", "xsd:long", "xsd:byte", "xsd:nonNegativeInteger", "xsd:positiveInteger", "xsd:short", "xsd:unsignedByte", "xsd:nonPositiveInteger", "xsd:unsignedLong"],
        "xsd:decimal": ["xsd:decimal", "xsd:integer", "xsd:int", "xsd:unsignedShort"],
        "xsd:nonNegativeInteger": ["xsd:nonNegativeInteger", "xsd:positiveInteger", "xsd:unsignedByte", "xsd:unsignedInt"],
        "xsd:long": ["xsd:long", "xsd:int", "xsd:byte"], "xsd:unsignedLong": ["xsd:unsignedLong", "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte"],
        "xsd:int": ["xsd:int", "xsd:short", "xsd:byte"], "xsd:short": ["xsd:short", "xsd:byte"],
        "xsd:nonPositiveInteger": ["xsd:nonPositiveInteger", "xsd:negativeInteger"], "xsd:unsignedInt": ["xsd:unsignedInt", "xsd:unsignedByte"],
        "xsd:dateTime": ["xsd:dateTime", "xsd:dateTimeStamp"],
        "xsd:string": ["xsd:string", "xsd:token", "xsd:NCName", "xsd:normalizedString", "xsd:Name", "xsd:NMTOKEN", "xsd:language"],
        "xsd:normalizedString": ["xsd:normalizedString", "xsd:token", "xsd:language"], "xsd:token": ["xsd:token", "xsd:Name", "xsd:NMTOKEN", "xsd:NCName"], "xsd:Name": ["xsd:Name", "xsd:NCName"]}
RANGE = {"xsd:nonNegativeInteger": (0, 9e9), "xsd:positiveInteger": (1, 9e9), "xsd:nonPositiveInteger": (-9e9, 0), "xsd:negativeInteger": (-9e9, -1), "xsd:byte": (-128, 127), "xsd:unsignedByte": (0, 255),
         "xsd:short": (-32768, 32767), "xsd:unsignedShort": (0, 65535), "xsd:unsignedInt": (0, 4e9), "xsd:unsignedLong": (0, 9e9)}
INT = [d for d in INTS if d not in ("xsd:positiveInteger", "xsd:negativeInteger")]
ORDER = ["xsd:decimal", "xsd:float", "xsd:double", "xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time"] + INT
TEXTS = ["xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN", "xsd:anyURI"]
OCT = ["xsd:hexBinary", "xsd:base64Binary"]
BASES = ORDER + TEXTS * 2 + OCT * 3 + ["rdf:PlainLiteral"] * 4
DAY = datetime.datetime(1999, 12, 30, 22, 0, 0)


def num(rng, dt, k, zone):
    """A literal of the datatype for the k-th value of the scale; (lexical form, key) or None."""
    if dt in INTS:
        lo, hi = RANGE.get(dt, (-9e9, 9e9))
        if not lo <= k <= hi:
            return None
        return (rng.choice(["%d", "%d", "%04d", "%+d"]) % k if k else rng.choice(["0", "00", "-0"]), "dec:%d" % (2 * k))
    if dt == "xsd:decimal":
        s = "%.1f" % (k / 2)
        return (rng.choice([s, s + "0", s.rstrip("0").rstrip(".") or "0"]), "dec:%d" % k)
    if dt in ("xsd:float", "xsd:double"):
        return (rng.choice(["%.1f" % (k / 2), "%.1fE0" % (k / 2), "%de-1" % (5 * k)]), "%s:%d" % (dt, k))
    if dt == "xsd:date":
        return ((DAY + datetime.timedelta(days=k)).strftime("%Y-%m-%d"), "date:%d" % k)
    if dt == "xsd:time":
        if k < 0 or k > 90:
            return None
        return ("%02d:%02d:00%s" % (k // 4, k % 4 * 15, rng.choice(["", ".0"])), "time:%d" % k)
    if dt in ("xsd:dateTime", "xsd:dateTimeStamp"):
        t = DAY + datetime.timedelta(minutes=30 * k)
        if dt == "xsd:dateTimeStamp" or zone:
            off = rng.choice([0, 0, 60, -330])
            t += datetime.timedelta(minutes=off)
            z = "Z" if not off else "%s%02d:%02d" % ("+-"[off < 0], abs(off) // 60, abs(off) % 60)
            return (t.strftime("%Y-%m-%dT%H:%M:%S") + z, "dtz:%d" % k)
        return (t.strftime("%Y-%m-%dT%H:%M:%S"), "dt:%d" % k)


LANGS = ["en", "en-us", "en-GB", "de", "de-de", "de-Latn-DE", "de-de-x-goethe", "de-x-de", "zh-hant", "de-latn-de-1996", "fr", "en-a-us"]
RANGES = ["en", "*", "de-de", "de-*-de", "*-us", "EN", "de-DE", "zh-*", "*-*-de", "en-us", "de-x-goethe", "e"]


def subtags(lang):
    return [{"t": x, "single": len(x) == 1} for x in lang.lower().split("-")]


def word(rng, dt):
    al = {"xsd:string": "ab1 -A.\né", "xsd:normalizedString": "ab1 A", "xsd:anyURI": "ab1/.", "rdf:PlainLiteral": "ab1 -A."}.get(dt, "ab1-.A")
    for _ in range(50):
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        w = "".join(rng.choice(al) for _ in range(n))
        if dt == "xsd:token":
            w = w.replace("-", " ")
        ok = {"xsd:token": lambda: w == " ".join(w.split()), "xsd:NCName": lambda: re.fullmatch(r"[abA][ab1A.-]*", w), "xsd:Name": lambda: re.fullmatch(r"[abA][ab1A.-]*", w),
              "xsd:NMTOKEN": lambda: w, "xsd:language": lambda: re.fullmatch(r"[abA]{1,8}(-[ab1A]{1,8})*", w)}.get(dt, lambda: True)()
        if ok and (dt != "xsd:normalizedString" or w == " ".join(w.split())):
            return w
    return "a"


def regex(rng, d=3):
    k = rng.random()
    if d == 0 or k < .3:
        k = rng.random()
        if k < .6:
            c = rng.choice("ab1A-. ")
            return ("\\." if c == "." else c), {"k": "chr", "c": c}
        if k < .75:
            return ".", {"k": "any"}
        if k < .85:
            return "\\d", {"k": "set", "cs": list("0123456789")}
        cs = rng.sample("ab1A", rng.randint(1, 3))
        return ("[%s]" % "".join(cs), {"k": "set", "cs": cs}) if k < .95 else ("[^%s]" % "".join(cs), {"k": "not", "cs": cs})
    if k < .6:
        a, b = regex(rng, d - 1), regex(rng, d - 1)
        return a[0] + b[0], {"k": "cat", "a": a[1], "b": b[1]}
    if k < .75:
        a, b = regex(rng, d - 1), regex(rng, d - 1)
        return "(%s|%s)" % (a[0], b[0]), {"k": "alt", "a": a[1], "b": b[1]}
    a = regex(rng, d - 1)
    if k < .85:
        return "(%s)*" % a[0], {"k": "star", "a": a[1]}
    if k < .93:
        return "(%s)+" % a[0], {"k": "cat", "a": a[1], "b": {"k": "star", "a": a[1]}}
    return "(%s)?" % a[0], {"k": "opt", "a": a[1]}


def literal(rng, dt, zone, k=None, w=None):
    """(term string, record) of a literal of the datatype"""
    rec = {"dt": dt, "ok": True, "firm": True}
    if dt in ORDER or dt in INTS:
        k = rng.randint(-3, 12) if k is None else k
        if dt in ("xsd:float", "xsd:double") and rng.random() < .12:
            lex, v = rng.choice([("INF", 10 ** 8), ("-INF", -10 ** 8), ("NaN", None)])
            rec.update(value={"kind": "nan"} if v is None else {"kind": "num", "v": v}, key="%s:%s" % (dt, lex) if v else "%s:nan" % dt)
            return lex, rec
        n = num(rng, dt, k, zone)
        if n is None:
            return None
        rec.update(value={"kind": "num", "v": 2 * k if dt in INTS else k}, key=n[1])
        return n[0], rec
    if dt == "xsd:hexBinary" or dt == "xsd:base64Binary":
        b = bytes(rng.choice([0, 10, 97, 255]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 6]))) if w is None else w
        rec.update(value={"kind": "octets", "chars": ["%d" % x for x in b]}, key=dt + b.hex())
        return (rng.choice([b.hex(), b.hex().upper()]) if dt == "xsd:hexBinary" else base64.b64encode(b).decode()), rec
    w = word(rng, dt) if w is None else w
    if dt == "rdf:PlainLiteral":
        lang = rng.choice(LANGS + [""])
        rec.update(value={"kind": "text", "chars": list(w), "lang": subtags(lang) if lang else []}, key="lang:%s:%s" % (lang.lower(), w) if lang else "str:" + w)
        return w + "@" + lang, rec
    rec.update(value={"kind": "text", "chars": list(w), "lang": []}, key="%s:%s" % ("uri" if dt == "xsd:anyURI" else "str", w))
    return w, rec


def facet(rng, base, zone):
    """(facet name, literal, record)"""
    if base in ORDER:
        f = rng.choice(["minInclusive", "maxInclusive", "minExclusive", "maxExclusive"])
        dt = base
        if base in INTS or base == "xsd:decimal":
            dt = rng.choice([base, "xsd:integer", "xsd:decimal"])
        for _ in range(40):
            r = literal(rng, dt, zone)
            if r and r[1]["value"]["kind"] == "num":
                return "xsd:" + f, tl(r[0], dt), {"f": f, "v": r[1]["value"]["v"], "ok": True, "lit": r[1]}
    k = rng.random()
    if base in TEXTS and k < .45 or base == "rdf:PlainLiteral" and k < .3:
        t, r = regex(rng)
        if rng.random() < .3:
            t, r = "a" + t, {"k": "cat", "a": {"k": "chr", "c": "a"}, "b": r}
        return "xsd:pattern", tl(t, rng.choice(["xsd:string", ""])), {"f": "pattern", "re": r, "ok": True}
    if base == "rdf:PlainLiteral" and k < .75:
        r = rng.choice(RANGES)
        return "rdf:langRange", tl(r, rng.choice(["xsd:string", ""])), {"f": "langRange", "range": r.lower().split("-"), "ok": True}
    f = rng.choice(["length", "minLength", "maxLength"])
    v = rng.randint(0, 4)
    return "xsd:" + f, tl(str(v), rng.choice(["xsd:nonNegativeInteger", "xsd:integer"])), {"f": f, "v": v, "ok": True}


def tl(lex, dt):
    return json.dumps(lex) + ("^^" + dt if dt else "")


class Builder:
    def __init__(self, rng, zone=False):
        self.rng, self.zone, self.g, self.defs, self.lits, self.users, self.f, self.known = rng, zone, [], [], {}, [], counter(), {}

    def define(self, base, facets, iri=None, **k):
        rng, n = self.rng, next(self.f)
        iri = iri or rng.choice(["x:F%d", "x:F%d", "_:F%d"]) % n
        d = dict({"iri": iri, "base": base, "facets": [{k: v for k, v in r.items() if k != "lit"} for _, _, r in facets], "wf": True, "listed": True, "loose": False}, **k)
        g = [(iri, "rdf:type", "rdfs:Datatype"), (iri, "owl:onDatatype", base)]
        if d["listed"]:
            nodes, cur = [], None
            for p, l, _ in facets:
                if cur is None or rng.random() < .7:
                    cur = "_:w%d" % next(self.f)
                    nodes.append(cur)
                g.append((cur, p, l))
                if "lit" in _:
                    self.known[impl.tostr(impl.toterm(l))] = _["lit"]
            h, ts = rlist(rng, nodes, self.f)
            g += ts + [(iri, "owl:withRestrictions", h)]
        self.g += g
        self.defs.append(d)
        return d

    def literal(self, dt, k=None, w=None):
        r = literal(self.rng, dt, self.zone, k, w)
        if r is None or len(json.dumps(r[0])) > 60:
            return None
        return self.use(tl(r[0], dt), r[1])

    def use(self, t, rec):
        t = impl.tostr(impl.toterm(t))
        if t not in self.lits:
            self.lits[t] = dict(rec, t=t)
            self.g.append(("x:s", self.rng.choice(["x:p", "x:q"]), t))
        return t

    def require(self, d, lits):
        """an owl:allValuesFrom of the datatype over these literals"""
        n = next(self.f)
        r, p, i = self.rng.choice(["_:r%d", "x:r%d"]) % n, "x:v%d" % n, "x:i%d" % n
        self.g += [(r, "owl:onProperty", p), (r, "owl:allValuesFrom", d["iri"])]
        if self.rng.random() < .5:
            self.g.append((i, "rdf:type", r))
        else:
            self.g += [(i, "rdf:type", "x:D%d" % n), ("x:D%d" % n, "rdfs:subClassOf", r)]
        for l in lits:
            self.g.append((i, p, l))
            self.users.append([l, d["iri"]])

    def case(self, cid, sem):
        for t in sorted({t for tr in self.g for t in tr if t.startswith('"') and t not in self.lits}):
            # the literals of the facets are literals, too
            term = impl.toterm(t)
            dt = "" if term.datatype is None else impl.tostr(term.datatype)
            self.lits[t] = dict(self.facet_value(t, dt, str(term)), t=t)
        return {"id": cid, "sem": sem, "inp": sorted(set(self.g)), "defs": self.defs, "lits": [self.lits[t] for t in sorted(self.lits)], "users": self.users, "ax": False, "dax": False}

    def facet_value(self, t, dt, lex):
        rec = {"dt": dt or "xsd:string", "ok": True, "firm": bool(dt)}
        if dt in INTS and re.fullmatch(r"[+-]?\d+", lex):
            return dict(rec, value={"kind": "num", "v": 2 * int(lex)}, key="dec:%d" % (2 * int(lex)))
        if dt == "xsd:decimal" and re.fullmatch(r"[+-]?\d+(\.\d+)?", lex):
            return dict(rec, value={"kind": "num", "v": int(float(lex) * 2)}, key="dec:%d" % int(float(lex) * 2))
        if dt in ("", "xsd:string"):
            return dict(rec, value={"kind": "text", "chars": list(lex), "lang": []}, key="str:" + lex)
        if t in self.known:
            return self.known[t]
        return dict(rec, ok=False, firm=False, value={"kind": "nan"}, key=t)


def runner(c):
    g = impl.build(c["inp"])
    impl.expand(g, c["sem"])
    out, msgs = impl.split_errors(g)
    iris = {d["iri"] for d in c["defs"]}
    typed = [[s, o] for s, p, o in out if p == "rdf:type" and o in iris and s.startswith('"')]
    errors = []
    for m in msgs:
        if re.search("(?i)allValuesFrom|type restriction", m):
            for d in c["defs"]:
                if re.search(re.escape(str(impl.toterm(d["iri"]))) + r"(?![\w])", m):
                    # (messages quote only the lexical form)
                    errors.append([d["iri"], [l["t"] for l in c["lits"] if m.endswith(" " + str(impl.toterm(l["t"])))]])
    return typed, errors, msgs


BAD = ["two-bases", "two-lists", "unsupported", "user-base", "unlisted", "ill-facet", "iri-facet", "unknown-facet", "inapplicable", "incomparable", "bad-pattern", "no-node"]


def bad(b, how):
    """A definition with something wrong in it."""
    rng = b.rng
    base = rng.choice(ORDER[:2] + ["xsd:integer", "xsd:string", "xsd:token", "xsd:hexBinary"])
    if how == "unsupported":
        base = rng.choice(["xsd:boolean", "xsd:gYear", "x:nothing", "rdf:XMLLiteral", "rdfs:Literal"])
        return b.define(base, [("xsd:minInclusive", '"1"^^xsd:integer', {"f": "minInclusive", "v": 2, "ok": True})], wf=False)
    if how == "user-base":
        return b.define(rng.choice([d["iri"] for d in b.defs] or ["x:none"]), [("xsd:minInclusive", '"1"^^xsd:integer', {"f": "minInclusive", "v": 2, "ok": True})], wf=False)
    fs = [facet(rng, base, b.zone) for _ in range(rng.randint(1, 2))]
    if how == "unlisted":
        return b.define(base, [], listed=False)
    if how == "two-bases":
        d = b.define(base, fs, wf=False)
        b.g.append((d["iri"], "owl:onDatatype", "xsd:boolean"))
    elif how == "two-lists":
        d = b.define(base, fs, wf=False)
        b.g.append((d["iri"], "owl:withRestrictions", "rdf:nil"))
    elif how == "ill-facet":
        fs.append(("xsd:minLength" if base in TEXTS + OCT else "xsd:minInclusive", '"abc"^^xsd:integer', {"f": "minLength" if base in TEXTS + OCT else "minInclusive", "v": 0, "ok": False}))
        d = b.define(base, fs)
    elif how == "iri-facet":
        fs.append(("xsd:minInclusive", "x:five", {"f": "minInclusive", "v": 0, "ok": False}))
        d = b.define(base, fs)
    elif how == "unknown-facet":
        fs.append(("x:facet", '"5"^^xsd:integer', {"f": "unknown", "v": 10, "ok": True}))
        d = b.define(base, fs)
    elif how == "inapplicable":
        f, l, r = rng.choice([("xsd:maxLength", '"0"^^xsd:integer', {"f": "maxLength", "v": 0, "ok": True}), ("rdf:langRange", '"en"', {"f": "langRange", "range": ["en"], "ok": True}),
                              ("xsd:pattern", '"zz"', {"f": "pattern", "re": {"k": "chr", "c": "z"}, "ok": True})]) if base in ORDER else \
            ("rdf:langRange", '"en"', {"f": "langRange", "range": ["en"], "ok": True}) if base in TEXTS else ("xsd:pattern", '"zz"', {"f": "pattern", "re": {"k": "chr", "c": "z"}, "ok": True})
        d = b.define(base, fs + [(f, l, r)])
    elif how == "incomparable":
        d = b.define("xsd:integer", fs + [("xsd:minInclusive", '"abc"^^xsd:string', {"f": "minInclusive", "v": 0, "ok": False}), ("xsd:maxLength", '"abc"', {"f": "maxLength", "v": 0, "ok": False})], loose=True)
    elif how == "bad-pattern":
        d = b.define("xsd:string", fs + [("xsd:pattern", '"((("', {"f": "pattern", "re": {"k": "eps"}, "ok": False})], loose=True)
    elif how == "no-node":
        d = b.define(base, fs)
        # an entry of the list that says nothing
        h = [t for t in b.g if t[0] == d["iri"] and t[1] == "owl:withRestrictions"]
        n = "_:e%d" % next(b.f)
        b.g = [t for t in b.g if t not in h] + [(d["iri"], "owl:withRestrictions", n), (n, "rdf:first", rng.choice(["x:nothingHere", '"5"^^xsd:integer'])), (n, "rdf:rest", h[0][2])]
    return d


def down(base, zone):
    # (the order between date-times with and without time zone is partial)
    return DOWN.get(base, [base]) if zone or base != "xsd:dateTime" else [base]


def some(b, base, n):
    """literals of the base and of derived types"""
    out = []
    for _ in range(n):
        dt = b.rng.choice(down(base, b.zone)) if b.rng.random() < .75 else base
        l = b.literal(dt)
        if l:
            out.append(l)
    return out


def random_case(cid, rng, wrong):
    b = Builder(rng, rng.random() < .5)
    bases = rng.sample(BASES, rng.randint(1, 3))
    usable = []
    for base in bases:
        for _ in range(rng.choice([1, 1, 2])):
            d = b.define(base, [facet(rng, base, b.zone) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))])
            usable.append(d)
    for _ in range(wrong):
        d = bad(b, rng.choice(BAD))
        if d["wf"] and not d["loose"]:
            usable.append(d)
    for base in sorted({d["base"] for d in usable}) + ([rng.choice(BASES)] if rng.random() < .3 else []):
        ls = some(b, base, rng.randint(3, 7))
        for d in usable:
            if d["base"] == base and rng.random() < .6 and ls:
                seen, mine = set(), []
                for l in rng.sample(ls, rng.randint(1, len(ls))) + ([rng.choice(sorted(b.lits))] if rng.random() < .3 else []):
                    if str(impl.toterm(l)) not in seen:     # (messages quote only the lexical form)
                        seen.add(str(impl.toterm(l)))
                        mine.append(l)
                b.require(d, mine)
    # literals that claim to be of the restricted datatype itself
    for d in usable:
        if d["base"] in ORDER and d["base"] not in ("xsd:float", "xsd:double") and d["listed"] and not d["iri"].startswith("_:") and rng.random() < .5:
            r = literal(rng, d["base"], b.zone)
            if r:
                b.use(tl(r[0], d["iri"]), dict(r[1], dt=d["iri"], key=r[1]["key"]))
    if rng.random() < .4:
        b.use('"abc"^^xsd:integer', {"dt": "xsd:integer", "ok": False, "firm": True, "value": {"kind": "nan"}, "key": "ill"})
    if rng.random() < .4:
        b.use('"plain"', {"dt": "xsd:string", "ok": True, "firm": False, "value": {"kind": "text", "chars": list("plain"), "lang": []}, "key": "str:plain"})
    if rng.random() < .3:
        b.use('"tagged"@en', {"dt": "rdf:langString", "ok": True, "firm": False, "value": {"kind": "text", "chars": list("tagged"), "lang": subtags("en")}, "key": "lang:en:tagged"})
    return b.case(cid, rng.choice(["ext", "ext", "extrdfs"]))


def combos(chk, rng):
    """Every combination of facets over a small scale."""
    lines, st = chk.model("MCFacets")
    cs = tagged(lines, "COMBO")
    cs.sort(key=lambda c: json.dumps(c))
    rng.shuffle(cs)
    names = {"order": ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"], "length": ["length", "minLength", "maxLength"]}
    out = []
    for rnd in range(chk.pick(1, 8)):
        for fam in ("order", "length"):
            mine = [c for c in cs if c["fam"] == fam]
            for i in range(0, len(mine), 6):
                b = Builder(rng, rng.random() < .5)
                base = rng.choice(ORDER if fam == "order" else TEXTS + OCT * 2 + ["rdf:PlainLiteral"])
                off = rng.randint(-2, 4) if "Positive" not in base and "nonN" not in base and "unsigned" not in base and base != "xsd:time" else -6 if "nonPositive" in base else rng.randint(0, 4)
                for c in mine[i:i + 6]:
                    fs = []
                    for n, v in zip(names[fam], c["combo"]):
                        if v != "-":
                            k = int(v) + (off if fam == "order" else 0)
                            if fam == "order":
                                lex, key = num(rng, base, k, b.zone)
                                v = 2 * k if base in INTS else k
                                fs.append(("xsd:" + n, tl(lex, base), {"f": n, "v": v, "ok": True, "lit": {"dt": base, "ok": True, "firm": True, "key": key, "value": {"kind": "num", "v": v}}}))
                            else:
                                fs.append(("xsd:" + n, tl(str(k), "xsd:integer"), {"f": n, "v": k, "ok": True}))
                    rng.shuffle(fs)
                    b.define(base, fs)
                ls = []
                for v in range(5):
                    dt = rng.choice(down(base, b.zone))
                    if fam == "order":
                        k = v + off
                        l = b.literal(dt, k=k if (dt in INTS) == (base in INTS) else 2 * k if base in INTS else k // 2) or b.literal(base, k=k)
                    elif base in OCT:
                        l = b.literal(base, w=bytes([rng.choice([0, 255, 97]) for _ in range(v)]))
                    else:
                        l = b.literal(base if v == 0 else dt if dt not in ("xsd:language",) else base, w="".join(rng.choice("abA") for _ in range(v))) if v or base in ("xsd:string", "rdf:PlainLiteral") else None
                    if l:
                        ls.append(l)
                for d in b.defs:
                    if rng.random() < .4 and ls:
                        b.require(d, list({str(impl.toterm(l)): l for l in ls}.values()))
                out.append(b.case("c%d-%s%d" % (rnd, fam, i), rng.choice(["ext", "ext", "extrdfs"])))
    return out


def c09(chk):
    rng = chk.rng("c09")
    cases = combos(chk, rng)
    chk.cov["facet_combinations"] = 108
    for i in range(chk.pick(150, 3000)):
        cases.append(random_case("r%d" % i, rng, rng.choice([0, 0, 1, 1, 2])))
    res = pmap(runner, cases, cpu=60, chunksize=2)
    todo = []
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            if st == "exception":
                chk.violation("case %s: %s" % (c["id"], v), {"input": c["inp"]})
            continue
        todo.append(dict(c, typed=v[0], errors=v[1], msgs=v[2]))
    verdicts = judge_tlc(chk, [{k: v for k, v in c.items() if k not in ("inp", "msgs")} for c in todo], "FacetTrace", "VERDICT", 800)
    chk.cov["traces_validated_against_impl"] += len(todo)
    chk.cov["typed"] = sum(len(c["typed"]) for c in todo)
    chk.cov["facet_errors"] = sum(len(c["errors"]) for c in todo)
    for c in todo:
        v = verdicts[c["id"]]
        what = {"missing": "not typed with a restricted datatype they satisfy", "wrong": "typed with a restricted datatype they do not satisfy", "unlisted": "a definition without restrictions took over others",
                "noerror": "violate the facets, but no error was reported", "falseerror": "reported as violating the facets, but do not"}
        bad = ["%s: %s" % (what[k], "; ".join(x if isinstance(x, str) else json.dumps(x) for x in v[k][:4])) for k in what if v[k]]
        if bad:
            chk.violation("case %s (%s): %s" % (c["id"], c["sem"], "; ".join(bad)), {"input": c["inp"], "defs": c["defs"], "lits": c["lits"], "verdict": v, "messages": c["msgs"]})
    for c in todo[-3:]:
        chk.sample({"id": c["id"], "input": [" ".join(t) for t in c["inp"]][:20]})
    chk.assumptions = ["patterns are written in the common part of XSD and Python regular expressions"]
