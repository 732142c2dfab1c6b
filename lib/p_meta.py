"""C11: relations between the expansions of related graphs (spec/MetaTrace.tla, spec/MCClosure.tla)."""
import os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from closure import *
import p_closure
from p_closure import RDFS

SEMS = ["owl"] * 5 + ["rdfs"] * 3 + ["comb", "comb", "ext", "extrdfs"]
LITS = ['"7"^^xsd:int', '"07"^^xsd:int', '"7"^^xsd:integer', '"7.0"^^xsd:decimal', '"7"^^xsd:double', '"v"', '"v"^^xsd:string', '"v"@en', '"true"^^xsd:boolean',
        '"1"^^xsd:boolean', '"2000-01-01T00:00:00Z"^^xsd:dateTime', '"abc"^^xsd:int', '"zz"^^xsd:byte', '"0a"^^xsd:hexBinary', '"0A"^^xsd:hexBinary', '"x"^^x:dt']


def facets(rng, f):
    d, r = "x:F%d" % next(f), "_:w%d" % next(f)
    h, ts = rlist(rng, [r], f)
    return ts + [(d, "rdf:type", "rdfs:Datatype"), (d, "owl:onDatatype", "xsd:integer"), (d, "owl:withRestrictions", h),
                 (r, rng.choice(["xsd:minInclusive", "xsd:maxExclusive"]), '"7"^^xsd:integer')]


def graph(rng, sem):
    fs = rng.sample(p_closure.POSITIVE + NEGATIVE + ["cont"], rng.randint(2, 9)) if sem != "rdfs" else rng.sample(RDFS_FEATS, rng.randint(2, 6))
    g = ontology(rng, schema=rng.randint(2, 9), facts=rng.randint(2, 12), feats=fs)
    for _ in range(rng.choice([0, 0, 1, 3])):
        g.append((rng.choice(["x:i0", "x:i1", "_:i0"]), rng.choice(["x:p0", "x:p1"]), rng.choice(LITS)))
    if rng.random() < .15:
        g += [("x:i0", "_:bp", "x:i1"), ("_:bp", rng.choice(["rdfs:subPropertyOf", "owl:inverseOf", "owl:sameAs"]), "x:p0")]
    if rng.random() < .35:
        g = distract(g, rng, .2)
    if sem.startswith("ext") and rng.random() < .5:
        f = counter()
        for _ in range(500):
            next(f)
        g += facets(rng, f) + [("x:i0", "x:p0", '"%d"^^xsd:integer' % rng.randint(5, 9))]
    return sorted(set(g))


def renaming(rng, g):
    """An injective renaming of IRIs and blank nodes that turns their order round and leaves no letter in its place."""
    names = sorted({x for t in g for x in t if x.startswith(("x:", "_:"))})
    new = ["%03d" % i for i in range(len(names))]
    rng.shuffle(new)
    ren = {}
    for n, k in zip(names, new):
        if n.startswith("_:"):
            ren[n] = "_:" + rng.choice(["b", "l", "C", "zz"]) + k
        else:
            ren[n] = rng.choice(["<http://example.org/%s>", "<urn:uuid:%s>", "x:Z%s", "<http://example.org/a#%s>", "<mailto:%s>"]) % k
    return ren


def more(rng, g, sem):
    f = counter()
    for _ in range(2000):
        next(f)
    h = graph(rng, sem)
    # the lists of the addition are its own
    own = {x for t in h for x in t if x.startswith(("_:l", "_:a", "_:n", "_:r", "_:w"))} | {x for t in h for x in t if x.startswith("x:F")}
    ren = {x: x + "n" for x in own}
    return sorted(set(g) | {tuple(ren.get(x, x) for x in t) for t in rng.sample(h, len(h)) if rng.random() < .7 or t[1] in ("rdf:first", "rdf:rest")} |
                  {tuple(ren.get(x, x) for x in t) for t in h if t[1] in ("rdf:first", "rdf:rest")})


def batches(jobs, seed):
    """jobs -> results, in processes with the given hash seed."""
    tmp = tempfile.mkdtemp(prefix="batch")
    k = max(1, -(-len(jobs) // CORES))
    parts = [jobs[i:i + k] for i in range(0, len(jobs), k)]

    def one(i):
        a, b = os.path.join(tmp, "in%d" % i), os.path.join(tmp, "out%d" % i)
        json.dump(parts[i], open(a, "w"))
        p = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "batch.py"), a, b], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True)
        if p.returncode:
            raise MachineryError("batch failed: " + p.stderr[-2000:])
        return json.load(open(b))
    try:
        with ThreadPoolExecutor(CORES) as ex:
            return [r for rs in ex.map(one, range(len(parts))) for r in rs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c11(chk):
    chk.model("MCClosure", env={"DEPTH": "1" if chk.thorough else "0"})
    rng = chk.rng("c11")
    full = {}
    for m in micro(chk, p_closure.OWL | RDFS | p_closure.VIOL):
        if not m["drop"]:
            full.setdefault(m["rule"], []).append(m)
    full = {True: [v for k, v in sorted(full.items()) if k in RDFS], False: [v for k, v in sorted(full.items()) if k not in RDFS]}
    bases, jobs = [], {1: [], 2: [], 3: []}
    where = []         # (case, relation, seed, index, renaming)

    def add(i, rel, seed, ren=None, **j):
        where.append((i, rel, seed, len(jobs[seed]), ren))
        jobs[seed].append(j)
    N, M = chk.pick((120, 60), (800, 500))
    for i in range(N, N + M):       # rule instances, and the same with second values for some of the statements
        sem = rng.choice(["owl"] * 6 + ["rdfs"])
        g = []
        for j in range(12):
            vs = full[sem == "rdfs"]
            g += concretise(rng.choice(vs[((i - N) * 12 + j) % len(vs)]), rng.choice(p_closure.VARIANTS), j)[0]
        g = sorted(set(g))
        h = sorted(set(distract(g, rng, .4)))
        o = dict(sem=sem, ax=False, dax=False)
        bases.append((g, o))
        add(i, "base", 1, inp=g, shuffle=0, **o)
        add(i, "more", rng.choice([1, 2, 3]), inp=h, shuffle=0, **o)
        bases.append((h, o))
        add(i + M, "base", 1, inp=h, shuffle=0, **o)
        ren = renaming(rng, h)
        add(i + M, "rename", rng.choice([1, 2, 3]), ren, inp=[[ren.get(x, x) for x in t] for t in h], shuffle=0, **o)
    bases2, bases = bases, []
    for i in range(N):
        sem = rng.choice(SEMS)
        g = graph(rng, sem) if i % 12 else p_closure.deep(rng, rng.randint(4, 9), (i // 12) % p_closure.NDEEP)
        if i in (1, 2):         # many cycles
            sem, g = "owl", p_closure.deep(rng, rng.randint(40, 44), 13) if i == 1 else p_closure.deep(rng, rng.randint(35, 38), 0)
        elif i == 3:
            sem, g = rng.choice(["comb", "ext"]), p_closure.deep(rng, 20, 13)
        elif i % 6 == 5 and sem in ("owl", "comb"):
            g = sorted(set(indirect(g, rng, min(.2, 3 / len(g)))))
        ax, dax = rng.choice([(False, False)] * 6 + [(True, False), (False, True), (True, True)])
        o = dict(sem=sem, ax=ax, dax=dax)
        bases.append((g, o))
        add(i, "base", 1, inp=g, shuffle=0, **o)
        if i in (1, 2, 3):
            add(i, "again", 2, inp=g, shuffle=1, times=2, **o)
            continue
        add(i, "same", 2, inp=g, shuffle=rng.randint(1, 9999), **o)
        add(i, "same", 3, inp=g[::-1], shuffle=rng.choice([0, rng.randint(1, 9999)]), grouped=True, **o)
        ren = renaming(rng, g)
        add(i, "rename", rng.choice([1, 2, 3]), ren, inp=[[ren.get(x, x) for x in t] for t in g], shuffle=0, **o)
        add(i, "again", rng.choice([1, 2, 3]), inp=g, shuffle=0, times=2, **o)
        add(i, "more", rng.choice([1, 2, 3]), inp=more(rng, g, sem), shuffle=0, **o)
    bases += bases2[::2] + bases2[1::2]
    res = {s: batches(jobs[s], s) for s in jobs}
    cases = {}
    big = 0
    for i, rel, seed, k, ren in where:
        st, v = res[seed][k]
        j = jobs[seed][k]
        if st == "exception":
            chk.violation("%s run failed: %s" % (rel, v), j)
        elif st != "ok":
            big += 1
        elif rel == "base":
            cases[i] = {"id": str(i), "base": v[0], "runs": []}
        elif i in cases:
            cases[i]["runs"].append({"rel": rel, "out": v[0], "ren": ren or {"": ""}, "job": j})
    chk.cov["too_big"] = big
    todo = [dict(c, runs=[{k: r[k] for k in ("rel", "out", "ren")} for r in c["runs"]]) for c in cases.values()]
    tmp = tempfile.mkdtemp(prefix="cases")
    try:
        f = os.path.join(tmp, "cases.json")
        json.dump(todo, open(f, "w"))
        lines, st, out = chk.tlc("MetaTrace", env={"CASES": f}, mem="16g")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    vs = tagged(lines, "VERDICT")
    n = sum(len(c["runs"]) for c in todo)
    if len(vs) != n:
        raise MachineryError("%d verdicts for %d runs" % (len(vs), n))
    rel = {}
    for v in vs:
        rel[v["rel"]] = rel.get(v["rel"], 0) + 1
        i, k = v["case"].split("/")
        c = cases[int(i)]
        j = c["runs"][int(k) - 1]["job"]
        if v["missing"] or v["extra"]:
            chk.violation("%s (%s): %s: missing %s; extra %s" % (v["case"], j["sem"], v["rel"], fmt(sorted(v["missing"])), fmt(sorted(v["extra"]))),
                          {"base": bases[int(i)], "related": j, "verdict": v})
    chk.cov["traces_validated_against_impl"] = n + len(todo)
    chk.cov["relations"] = rel
    chk.sample({"base": bases[1]})
    chk.assumptions = ["RDFLib stores and returns triples faithfully"]
