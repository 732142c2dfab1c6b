"""C20: subclasses of the core and of the supplied semantics; programs from spec/MCLifecycle.tla, recorded calls judged by spec/LifecycleTrace.tla."""
import impl, rdflib, owlrl
from rdflib import Dataset, Graph, URIRef
from rdflib.graph import ConjunctiveGraph
from owlrl.Closure import Core
from closure import *

HOOKS = {"pre": "pre_process", "axioms": "add_axioms", "daxioms": "add_d_axioms", "one": "one_time_rules", "post": "post_process"}
SEMS = ["rdfs", "owl", "comb", "ext", "extrdfs", "trim", "trimrdfs"]
HOWS = ["object", "closure", "dest", "dest+", "dataset", "named", "conjunctive"]
# texts of the messages of a program (several texts: all of them are reported)
TEXTS = [{"m1": ["user: message one"], "m2": ["user: message two"], "m3": [""], "m4": ["user: \"quoted\"\nand another line"]},
         {"m1": ["user"], "m2": ["user: user"], "m3": [" user "], "m4": ["USER"]},
         {"m1": ["burst %d" % i for i in range(40)], "m2": ["message"], "m3": ["burst 1%d of 20" % i for i in range(20)], "m4": ["burst"]}]


def tokens(c):
    """token -> triple"""
    if c["base"] == "core":
        kinds = c["kinds"]
        forms = {"iri": ("x:s%s", "x:q", "x:o%s"), "bnode": ("_:s%s", "x:q", "_:o%s"), "bpred": ("x:s", "_:q%s", "x:o"), "lit": ("x:s%s", "x:q", '"%s"@en'),
                 "litsubj": ('"%s"', "x:q", "x:o"), "type": ("x:s", "rdf:type", "x:C%s"), "odd": ("rdf:type", "rdf:type", "x:%s"), "num": ("x:s%s", "rdf:_1", '"7"^^xsd:int'), "self": ("x:%s", "x:%s", "x:%s")}
        out = {}
        for t, k in zip("ABCDEZ", kinds):
            out[t] = tuple(x % t if "%" in x else x for x in forms[k])
    elif c["kinds"][0] == "class":
        out = {t: ("x:i", "rdf:type", "x:" + t) for t in list("ABCDEZ") + ["A2", "B2", "C2"]}
    else:
        out = {t: ("x:i", "x:p" + t, "x:j") for t in list("ABCDEZ") + ["A2", "B2", "C2"]}
    out["L1"] = ("x:s", '"p"', "x:o")
    out["L2"] = ("x:s", '"1"^^xsd:integer', "x:o")
    return out


def schema(c):
    if c["base"] == "core":
        return []
    p = "rdfs:subClassOf" if c["kinds"][0] == "class" else "rdfs:subPropertyOf"
    n = "x:" if c["kinds"][0] == "class" else "x:p"
    return [(n + a, p, n + a + "2") for a in "ABC"] + [("x:k", "x:r", '"7"^^xsd:int')] + ([("x:u", "owl:sameAs", "x:w"), ("x:u", "owl:differentFrom", "x:w")] if c["bad"] else [])


class Recorder:
    """What the hooks of a subclass do; events are recorded."""

    def __init__(self, c):
        self.c, self.p = c, c["prog"]
        self.tok = {t: impl.triple(x) for t, x in tokens(c).items()}
        self.name = {x: t for t, x in self.tok.items()}
        self.events, self.rests = [], {}
        self.cycle, self.snap, self.called, self.strange = None, None, set(), False

    def look(self, sem):
        g = set(sem.graph.triples((None, None, None)))
        rest = frozenset(t for t in g if t not in self.name)
        return g, sorted(self.name[t] for t in g if t in self.name), rest

    def rest(self, r):
        return self.rests.setdefault(r, len(self.rests))

    def ended(self):
        """Were the rules of the last cycle called for every triple of its snapshot and no other?"""
        if self.snap is None:
            return True
        return self.called == self.snap and not self.strange

    def event(self, sem, h):
        g, vis, r = self.look(sem)
        ok = self.ended() if h in ("post", "end") else True
        if h in ("post", "end") and self.cycle is None and g:
            ok = False
        self.events.append({"h": h, "n": 0, "t": "-", "vis": vis, "rest": self.rest(r), "ok": ok})

    def hook(self, sem, h):
        self.event(sem, h)
        a = self.p[h]
        for t in a["store"]:
            sem.store_triple(self.tok[t])
        for m in a["msgs"]:
            self.report(sem, m)
        if self.c["flush"]:
            sem.flush_stored_triples()

    def report(self, sem, m):
        for x in TEXTS[self.c["texts"]][m]:
            sem.add_error(x)

    def rules(self, sem, t, n):
        if n != self.cycle:
            g, vis, r = self.look(sem)
            self.events.append({"h": "cycle", "n": n, "t": "-", "vis": vis, "rest": self.rest(r), "ok": self.ended()})
            self.cycle, self.snap, self.called, self.strange, self.size = n, g, set(), False, len(g)
        if t not in self.snap:
            self.strange = True
        tok = self.name.get(t)
        if tok is not None and t not in self.called:
            g, vis, r = self.look(sem)
            self.events.append({"h": "rule", "n": n, "t": tok, "vis": vis, "rest": self.rest(r), "ok": g == self.snap})
        self.called.add(t)
        for r in self.p["rules"]:
            if (r["on"] == "*" and tok or r["on"] == tok) and (r["when"] == "any" or r["when"] == "eq" and n == r["k"] or r["when"] == "ge" and n >= r["k"]):
                if r["needs"] == "-" or self.tok[r["needs"]] in sem.graph:
                    if r["store"] != "-":
                        sem.store_triple(self.tok[r["store"]])
                    if r["msg"] != "-":
                        self.report(sem, r["msg"])


def subclass(c, rec):
    base = Core if c["base"] == "core" else impl.CLASSES[c["base"]][0]
    over, first = c["over"], c["first"]

    def method(h):
        if c["base"] == "core" and h in ("axioms", "daxioms"):
            return lambda self: rec.hook(self, h)
        name = HOOKS[h]

        def f(self):
            if first:
                rec.hook(self, h)
                getattr(super(self.__rec_class__[name], self), name)()
            else:
                rec.event(self, h)
                k = len(rec.events)
                getattr(super(self.__rec_class__[name], self), name)()
                rec.hook(self, h)
                del rec.events[k:]
        return f

    def rules(self, t, n):
        if not first and c["base"] != "core":
            super(self.__rec_class__["rules"], self).rules(t, n)
        rec.rules(self, t, n)
        if first and c["base"] != "core":
            super(self.__rec_class__["rules"], self).rules(t, n)
    ms = {HOOKS[h]: method(h) for h in over}
    ms["rules"] = rules
    where = {}
    if c["style"] == "direct":
        cls = type("User", (base,), dict(ms))
        where = {k: cls for k in ms}
    elif c["style"] == "mixin":
        mix = type("Mixin", (), dict(ms))
        cls = type("User", (mix, base), {})
        where = {k: mix for k in ms}
    else:
        names = sorted(ms)
        mid = type("Middle", (base,), {k: ms[k] for k in names[::2]})
        cls = type("User", (mid,), {k: ms[k] for k in names[1::2]})
        where = {k: mid if k in names[::2] else cls for k in ms}
    cls.__rec_class__ = where
    if c["own_init"]:
        def __init__(self, graph, axioms, daxioms, rdfs=False, destination=None):
            base.__init__(self, graph, axioms, daxioms, rdfs, destination)
        cls.__init__ = __init__
    return cls


def run(c):
    rec = Recorder(c)
    cls = subclass(c, rec)
    rdfs = c["base"] != "core" and impl.CLASSES[c["base"]][1]
    inp = [tokens(c)[t] for t in c["prog"]["input"]] + schema(c)
    how, dest = c["how"], None
    if how in ("object", "closure"):
        src = impl.build(inp)
        written = src
    else:
        ds = ConjunctiveGraph() if how == "conjunctive" else Dataset()
        A, D = ds.get_context(URIRef("urn:g:A")), ds.get_context(URIRef("urn:g:D"))
        if how in ("dest", "dest+"):
            for i, t in enumerate(inp):
                (D if how == "dest+" and i % 2 else A).add(impl.triple(t))
            src, dest, written = A, D, D
        else:
            for i, t in enumerate(inp):
                [A, ds.default_context, D][i % 3].add(impl.triple(t))
            src, dest = ds, (URIRef("urn:g:D") if how == "named" else None)
            written = D if how == "named" else ds.default_context
    P = c["prog"]
    last = {}
    orig = cls.closure

    def closure(self):
        last["self"] = self
        return orig(self)
    cls.closure = closure
    if how == "object":
        cls(src, P["ax"], P["dax"], rdfs).closure()
    else:
        owlrl.DeductiveClosure(cls, rdfs_closure=rdfs, axiomatic_triples=P["ax"], datatype_axioms=P["dax"]).expand(src, destination=dest)
    errs = {s for s in written.subjects(rdflib.RDF.type, URIRef(impl.ERR + "ErrorMessage"))}
    msgs = [str(o) for e in errs for o in written.objects(e, URIRef(impl.ERR + "error"))]
    sem = last["self"]
    whole = {t for t in sem.graph.triples((None, None, None)) if t[0] not in errs}
    rec.events.append({"h": "end", "n": 0, "t": "-", "vis": sorted(rec.name[t] for t in whole if t in rec.name), "rest": rec.rest(frozenset(t for t in whole if t not in rec.name)),
                       "ok": rec.ended() and (rec.cycle is not None or not whole or "post" in c["over"] or bool(P["post"]["store"]))})
    mine, others = [], list(msgs)
    for m, ts in sorted(TEXTS[c["texts"]].items()):
        k = min(others.count(x) for x in ts)
        mine += [m] * k
        for x in ts * k:
            others.remove(x)
    texts = {x for ts in TEXTS[c["texts"]].values() for x in ts}
    mine += ["incomplete or repeated"] * any(x in texts for x in others)
    return dict(events=rec.events, msgs=sorted(mine), others=sorted(others), nodes=len(errs) - len(msgs) + len(mine) + len(others))


def random_program(rng):
    toks, msgs = list("ABCDE") + ["L1", "L2"], sorted(TEXTS[0])

    def hook():
        return {"store": rng.sample(toks, rng.choice([0, 0, 1, 1, 2])), "msgs": [rng.choice(msgs) for _ in range(rng.choice([0, 0, 0, 1, 2]))]}
    rules = []
    for _ in range(rng.randint(0, 6)):
        w = rng.choice(["any", "any", "eq", "ge"])
        rules.append({"on": rng.choice(["*", "A", "B", "C", "D", "Z"]), "when": w, "k": rng.randint(1, 4) if w != "any" else 0, "needs": rng.choice(["-", "-", "A", "B", "C", "D", "E"]),
                      "store": rng.choice(toks + ["-"]), "msg": rng.choice(["-"] * 4 + msgs)})
    p = {h: hook() for h in HOOKS}
    p.update(rules=rules, ax=rng.random() < .5, dax=rng.random() < .5, input=rng.sample("ABZ", rng.choice([0, 1, 1, 2, 3])))
    return p


def chain_program(rng):
    """One rule needs what another stores."""
    order = rng.sample("ABCDE", rng.randint(3, 5))
    rules = []
    for a, b in zip(order, order[1:]):
        x = {"on": a, "when": rng.choice(["any"] * 4 + ["ge"]), "k": rng.randint(1, 3), "needs": "-", "store": b, "msg": rng.choice(["-", "-", "m1", "m2"])}
        if x["when"] == "any":
            x["k"] = 0
        if rng.random() < .4:
            x["on"], x["needs"] = rng.choice(["*", "Z", a]), a
        rules.append(x)
    none = {"store": [], "msgs": []}
    p = {h: none for h in HOOKS}
    inp = ["Z"]
    start = rng.choice(["input", "pre", "axioms", "one"])
    if start == "input":
        inp.append(order[0])
    else:
        p[start] = {"store": [order[0]], "msgs": []}
    p["post"] = {"store": rng.choice([[], ["L1"], [order[-1]], ["B"]]), "msgs": rng.choice([[], ["m1"]])}
    p.update(rules=rng.sample(rules, len(rules)), ax=True, dax=rng.random() < .5, input=inp)
    return p


def c20(chk):
    rng = chk.rng("c20")
    lines, st = chk.model("MCLifecycle")
    progs = sorted(tagged(lines, "PROGRAM"), key=lambda p: json.dumps(p, sort_keys=True))
    if len(progs) != 8048:
        raise MachineryError("%d programs" % len(progs))
    cases = []

    def add(p, base):
        p = json.loads(json.dumps(p))
        p["input"] = sorted(p["input"])
        if base != "core" and rng.random() < .5:        # the rules also wait for what the semantics infers
            for r in p["rules"]:
                for k in ("on", "needs"):
                    if r[k] in ("A", "B", "C") and rng.random() < .4:
                        r[k] += "2"
        empty = lambda h: not p[h]["store"] and not p[h]["msgs"]
        over = [h for h in HOOKS if not empty(h) or base == "core" and h in ("axioms", "daxioms") or rng.random() < .7]
        for h in HOOKS:
            if h not in over and not empty(h):
                raise AssertionError
        cases.append({"id": str(len(cases)), "prog": p, "base": base, "over": over, "first": rng.random() < .5, "style": rng.choice(["direct", "mixin", "middle"]), "own_init": rng.random() < .3,
                      "flush": rng.random() < .15, "how": rng.choice(HOWS if base == "core" else ["closure"] * 3 + HOWS[1:]), "bad": rng.random() < .3, "texts": len(cases) % 3,
                      "kinds": [rng.choice(["iri", "bnode", "bpred", "lit", "litsubj", "type", "odd", "num", "self"]) for _ in range(6)] if base == "core" else [rng.choice(["class", "property"])]})
    for p in progs if chk.thorough else rng.sample(progs, 3000):
        add(p, "core")
    for i in range(chk.pick(1000, 20000)):
        add(random_program(rng) if i % 3 else chain_program(rng), "core")
    for i in range(chk.pick(160, 2500)):
        p = rng.choice(progs) if rng.random() < .4 else random_program(rng) if rng.random() < .5 else chain_program(rng)
        if rng.random() < .7:
            p = dict(p, ax=False, dax=False)
        add(p, rng.choice(SEMS))
    res = pmap(run, cases, cpu=60, chunksize=4)
    todo = []
    bases = {}
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            chk.violation("a subclass of %s (%s) failed: %s" % (c["base"], c["how"], v), c)
            continue
        core = c["base"] == "core"
        bases[c["base"]] = bases.get(c["base"], 0) + 1
        todo.append(dict({k: c[k] for k in ("id", "prog", "over", "flush")}, bg=[] if core else ["A2", "B2", "C2"], bgrules=[] if core else [[x, x + "2"] for x in "ABC"], fixed=core, **v))
    vs = judge_tlc(chk, todo, "LifecycleTrace", "VERDICT", 800) if todo else {}
    cyc = {}
    for c in cases:
        v = vs.get(c["id"])
        if v is None:
            continue
        cyc[v["n"]] = cyc.get(v["n"], 0) + 1
        if v["why"] != "-":
            chk.violation("%s, %s (%s), hooks %s: %s, event %d, cycle %d" % (c["id"], c["base"], c["how"], " ".join(c["over"]), v["why"], v["at"], v["n"]), dict(c, recorded=next(t["events"] for t in todo if t["id"] == c["id"])))
    chk.cov["traces_validated_against_impl"] = len(todo)
    chk.cov["bases"] = bases
    chk.cov["cycles"] = {str(k): v for k, v in sorted(cyc.items())}
    chk.sample(cases[0])
    chk.assumptions = ["RDFLib stores and returns triples faithfully"]
