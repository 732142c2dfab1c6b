"""C06: inconsistencies are reported exactly (spec/ViolTrace.tla)."""
import re
import impl
from closure import *
import p_closure
from p_closure import VIOL, VARIANTS, SPECIALS

KINDS = [("ill-typed", r"lexical|ill.?typed"), ("negative", r"negative"), ("irreflexive", r"irreflexive"), ("asymmetric", r"asymmetric"),
         ("disjoint properties", r"disjoint\W*propert|AllDisjointProperties"), ("disjoint classes", r"disjoint\W*class|AllDisjointClasses"),
         ("complement", r"complement"), ("max qualified", r"max\w*\W+qualified"), ("max", r"max\w*\W+cardinality"),
         ("different", r"differentFrom|AllDifferent"), ("nothing", r"nothing"), ("range", r"allValuesFrom")]


def signature(m, table):
    args, i, words = [], 0, ""
    toks = sorted(table, key=len, reverse=True)
    while i < len(m):
        hit = None
        if i == 0 or m[i - 1] in " (,'\"<[":
            for t in toks:
                if t and m.startswith(t, i) and (i + len(t) == len(m) or m[i + len(t)] in " ),'\">;].:"):
                    hit = t
                    break
        if hit:
            args.append(sorted(table[hit]))
            i += len(hit)
            words += "?"
        else:
            words += m[i]
            i += 1
    kind = next((k for k, r in KINDS if re.search(r, words, re.I)), "unknown")
    return {"kind": kind, "args": args, "text": m}


def run(c):
    g = impl.build(c["inp"])
    impl.expand(g, c["sem"], c["ax"], c["dax"])
    out, msgs = impl.split_errors(g)
    return out, msgs


def run_sigs(c):
    out, msgs = run(c)
    table = {}
    for t in {x for tr in out for x in tr} | {x for tr in c["inp"] for x in tr}:
        table.setdefault(str(impl.toterm(t)), set()).add(t)
    return [0] * len(out), msgs, [signature(m, table) for m in msgs]


def lists(rng, n):
    """Every pair of positions of lists of every length up to n."""
    for k in range(2, n + 1):
        for i in range(k):
            for j in range(i + 1, k):
                yield k, i, j


def positions(rng, kind, k, i, j, tag, late):
    f = counter()
    T = "rdf:type"
    x = lambda a: "x:%s%s" % (a, tag)
    els = [x("e%d_" % a) for a in range(k)]
    h, ts = rlist(rng, els, f)
    g = [tuple(y + tag if y.startswith("_:") else y for y in t) for t in ts]
    h += tag
    a = "_:a" + tag
    if kind == "adc":
        g += [(a, T, "owl:AllDisjointClasses"), (a, "owl:members", h), (x("u"), T, els[i])]
        g += [(x("u"), x("p"), x("w")), (x("p"), "rdfs:domain", els[j])] if late else [(x("u"), T, els[j])]
    elif kind == "adp":
        g += [(a, T, "owl:AllDisjointProperties"), (a, "owl:members", h), (x("u"), els[i], x("v"))]
        g += [(x("v"), x("q"), x("u")), (x("q"), "owl:inverseOf", els[j])] if late else [(x("u"), els[j], x("v"))]
    else:
        g += [(a, T, "owl:AllDifferent"), (a, "owl:members" if kind == "adf" else "owl:distinctMembers", h)]
        g += [(x("f"), T, "owl:FunctionalProperty"), (x("s"), x("f"), els[j]), (x("s"), x("f"), els[i])] if late else \
            [(els[i], "owl:sameAs", els[j])] if rng.random() < .5 else [(els[j], "owl:sameAs", els[i])]
    return g


def similar(full, rng, n):
    """The same violation of two resources one of whose names is part of the other."""
    rules = {}
    for m in full:
        rules.setdefault(m["rule"], []).append(m)
    pairs = []
    for r, v in sorted(rules.items()):
        for i in range(n):
            for k in range(2 * max(len({y for t in m["g"] for y in t if y.startswith("x:")}) for m in v)):
                m = rng.choice(v)
                xs = sorted({y for t in concretise(m, "iri", 0)[0] for y in t if y.startswith("x:")})
                pairs.append((m, k // 2 % len(xs), ("%s0", "<a:%s>")[k % 2]))
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 8):
        out = []
        for j, (m, k, long) in enumerate(pairs[i:i + 8]):
            g = concretise(m, "iri", j)[0]
            x = sorted({y for t in g for y in t if y.startswith("x:")})[k]
            y = long % (x if long[0] == "%" else str(impl.toterm(x)))
            out += g + [tuple(y if z == x else z + "s" if z.startswith("_:") else z for z in t) for t in g]
        yield out


def c06(chk):
    rng = chk.rng("c06")
    ms = micro(chk, VIOL)
    items = p_closure.micro_items(chk, ms, chk.pick(700, 4000), rng)
    cases = pack(items, 15, "m")
    for i, (k, a, b) in enumerate(lists(rng, chk.pick(5, 9))):
        g = []
        for kind in ("adc", "adp", "adf", "adm"):
            for late in (False, True):
                g += positions(rng, kind, k, a, b, "%s%d" % (kind, late), late)
        cases.append(case("p%d-%d-%d" % (k, a, b), g))
    for i in range(chk.pick(20, 150)):       # several conflicts in one list
        n = rng.randint(4, 7)
        els = ["x:e%d" % j for j in range(n)]
        f = counter()
        h, ts = rlist(rng, els, f)
        kind = rng.choice(("AllDisjointClasses", "AllDisjointProperties", "AllDifferent"))
        ts += [("_:adx", "rdf:type", "owl:" + kind), ("_:adx", rng.choice(["owl:members", "owl:distinctMembers"]) if kind == "AllDifferent" else "owl:members", h)]
        sh = els[:]
        rng.shuffle(sh)
        for j in range(0, rng.choice((2, 4)), 2):
            x, y = sh[j:j + 2]
            ts += [(x, "owl:sameAs", y)] if kind == "AllDifferent" else \
                [("x:u%d" % j, "rdf:type", x), ("x:u%d" % j, "rdf:type", y)] if kind == "AllDisjointClasses" else [("x:u%d" % j, x, "x:w"), ("x:u%d" % j, y, "x:w")]
        cases.append(case("l%d" % i, ts))
    rngo = chk.rng("overlaps")
    for i, g in enumerate(overlaps(ms, rngo, chk.pick(120, 1200), 4)):
        cases.append(case("o%d" % i, g, rules=["overlaps"]))
    for i, g in enumerate(declared(ms, rngo, chk.pick(.5, 1))):
        cases.append(case("t%d" % i, g, rules=["declared"]))
    full = [m for m in ms if not m["drop"]]
    for i, g in enumerate(similar(full, rngo, chk.pick(6, 60))):
        cases.append(case("s%d" % i, g, rules=["similar names"]))
    for i in range(chk.pick(40, 400)):
        m = rng.choice(full)
        for g in special(m, rng):
            cases.append(case("v%d" % i, g, rules=[m["rule"]]))
    for i in range(chk.pick(200, 2500)):
        fs = rng.sample(NEGATIVE, rng.randint(1, 4)) + rng.sample(POSITIVE, rng.randint(1, 6))
        g = ontology(rng, schema=rng.randint(2, 8), facts=rng.randint(2, 12), feats=fs)
        cases.append(case("r%d" % i, g, rng.choice(["owl"] * 6 + ["comb", "ext"]), rules=fs))
    for i in range(chk.pick(60, 400)):        # consistent by construction
        fs = rng.sample(POSITIVE, rng.randint(2, 8))
        cases.append(case("c%d" % i, ontology(rng, schema=5, facts=8, feats=fs), rules=fs))
    for k, n in chk.pick([(0, 12), (1, 12), (2, 8)], [(0, 40), (1, 40), (2, 20), (3, 15)]):     # a conflict at the end of a long derivation
        g = p_closure.deep(rng, n, k)
        g += [("x:C%d" % n, "owl:disjointWith", "x:E"), ("x:i%d" % n, "rdf:type", "x:E"), ("x:C%d" % (n - 1), "rdfs:subClassOf", "owl:Nothing"),
              ("x:a%d" % n, "owl:differentFrom", "x:b%d" % n)]
        cases.append(case("d%d" % k, g))
    res = pmap(run_sigs, cases, cpu=60, chunksize=2)
    todo, msgs = [], {}
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            if st == "exception":
                chk.violation("expansion of %s failed: %s" % (c["id"], v), describe(c))
            continue
        if len(v[0]) <= MAXOUT:
            todo.append(dict(c, out=[], msgs=[], sigs=v[2], n=len(v[0])))
            msgs[c["id"]] = v[1]
    todo.sort(key=lambda c: -c["n"])
    verdicts = judge_tlc(chk, todo, "ViolTrace", "VERDICT", 800)
    rules = {}
    for c in todo:
        v = verdicts[c["id"]]
        for r in v["rules"]:
            rules[r] = rules.get(r, 0) + 1
        if v["unreported"]:
            chk.violation("case %s (%s): violations that are not reported: %s" % (c["id"], c["sem"], fmt("%s %s" % (u["rule"], " ".join(u["who"])) for u in v["unreported"])),
                          dict(describe(c), messages=msgs[c["id"]], verdict=v))
        if v["unjustified"]:
            chk.violation("case %s (%s): reports without a violation: %s" % (c["id"], c["sem"], fmt(v["unjustified"])),
                          dict(describe(c), messages=msgs[c["id"]], verdict=v))
        m = msgs[c["id"]]
        if len(m) != len(set(m)):
            chk.violation("case %s: the same message in several error nodes" % c["id"], dict(describe(c), messages=m))
    chk.cov["traces_validated_against_impl"] = len(todo)
    chk.cov["violated_instances"] = sum(verdicts[c["id"]]["nviol"] for c in todo)
    chk.cov["graphs_with_violations_per_rule"] = rules
    chk.cov["graphs_without_violation"] = sum(1 for c in todo if not verdicts[c["id"]]["nviol"])
    for c in todo[-3:]:
        chk.sample({"id": c["id"], "input": [" ".join(t) for t in c["inp"]][:12], "messages": msgs[c["id"]][:3]})
