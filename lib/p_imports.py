"""C17: owl:imports; import graphs enumerated by spec/MCImports.tla, recorded loads validated by spec/ImportsTrace.tla."""
import json, os, shutil, sys, tempfile, urllib.parse
import impl
import rdflib
import owlrl
from closure import *

OPENED = []
_root = [None]


def _audit(event, args):
    if event == "open" and _root[0] and isinstance(args[0], str) and args[0].startswith(_root[0]):
        OPENED.append(os.path.relpath(args[0], _root[0]))


sys.addaudithook(_audit)
SUF = {"turtle": [".ttl", ".n3"], "xml": [".rdf", ".owl", "", ".xml", ".ttl.rdf"], "json-ld": [".json", ".jsonld"]}
FORMATS = {"turtle": "turtle", "xml": "xml", "json-ld": "json"}


def content(d, docs, closure):
    """The triples of a document; blank nodes are known by their x:id."""
    b = "_:b" + d
    ts = [("x:s" + d, "x:p", '"%s"' % d), ("x:shared", "x:q", "x:o"), (b, "x:id", '"b%s"' % d), (b, "x:r", "x:s" + d), ("x:R" + d, "rdfs:subClassOf", "x:T" + d)]
    if d == "root":
        ts += [("x:i", "rdf:type", "x:R" + k) for k in docs]
        if closure:
            ts.append(("x:i", "rdf:type", "x:Troot"))
    return ts


def runner(c):
    tmp = tempfile.mkdtemp(prefix="imports")
    try:
        # (every third case: the documents have the same name, in different directories)
        tree = sum(map(ord, c["id"])) % 3 == 0
        names = {d: (d + "/doc" if tree else d) + c["suffix"][d] for d in c["content"]}
        for d in names if tree else ():
            os.mkdir(os.path.join(tmp, d))
        uri = {d: "file://" + urllib.parse.quote(os.path.join(tmp, n)) for d, n in names.items()}
        statements = set()

        def graph(d):
            g = rdflib.Graph()
            for t in c["base"][d]:
                # (the same label everywhere, apart from JSON-LD, where RDFLib keeps labels)
                g.add(impl.triple(["_:b" if x.startswith("_:") and c["format"][d] != "json-ld" else x for x in t]))
            for e, subj, kind in c["refs"][d]:
                o = {"iri": rdflib.URIRef(uri[e]), "lit": rdflib.Literal(uri[e]), "path": rdflib.Literal(os.path.join(tmp, names[e]))}[kind]
                g.add((impl.toterm(subj), rdflib.OWL.imports, o))
            return g
        for d in names:
            if d != "root" or c["how"] == "file":
                graph(d).serialize(os.path.join(tmp, names[d]), format=c["format"][d])
        _root[0] = tmp
        if c["how"] == "doc":
            # the graph is a document itself
            g = rdflib.Graph()
            g.parse(os.path.join(tmp, names["d1"]), format=c["format"]["d1"])
            OPENED.clear()
            owlrl.interpret_owl_imports(c["iformat"], g)
        elif c["how"] == "memory":
            g = graph("root")
            OPENED.clear()
            owlrl.interpret_owl_imports(c["iformat"], g)
        else:
            kw = {"iformat": c["iformat"], "format": "turtle"}
            if c["how"] == "file":
                kw["sources"] = [os.path.join(tmp, names["root"])]
            else:
                kw["text"] = graph("root").serialize(format="turtle")
            OPENED.clear()
            text = owlrl.convert_graph(impl.convert_options(c["sem"], **kw))
            g = rdflib.Graph()
            g.parse(data=text, format="turtle")
        log = [n for n in OPENED if c["how"] != "file" or n != names["root"]]
        _root[0] = None
    finally:
        _root[0] = None
        shutil.rmtree(tmp)
    back = {n: d for d, n in names.items()}
    loads = [back.get(n, n) for n in log]
    marks, copies = {}, []
    for b, m in g.subject_objects(rdflib.URIRef("urn:x#id")):
        if isinstance(b, rdflib.BNode):
            marks.setdefault(str(m), []).append(b)
    ren = {}
    for m, bs in marks.items():
        if len(bs) > 1:
            copies.append(m)
        for b in bs:
            ren[b] = "_:" + m
    out, left = set(), 0
    for s, p, o in g:
        if p == rdflib.OWL.imports:
            left += 1
            out.add("import " + impl.tostr(s))
        else:
            out.add(" ".join(ren.get(x) or impl.tostr(x) for x in (s, p, o)))
    return loads, sorted(out), left, sorted(copies)


def build(cid, rng, imp):
    docs = sorted(set(imp) - {"root"})
    how = rng.choice(["memory"] * 5 + ["file", "text"])
    if imp["root"] == imp["d1"] and rng.random() < .5:
        how = "doc"
    sem = rng.choice(["owl", "owl", "comb", "ext", "trimrdfs", "rdfs", "none"]) if how in ("file", "text") else "none"
    interpret = how in ("memory", "doc") or sem not in ("rdfs", "none")
    closure = how in ("file", "text") and interpret
    iformat = rng.choice(["auto"] * 3 + ["turtle", "xml", "json"])
    fmt, suf = {}, {}
    for d in docs + ["root"]:
        fmt[d] = rng.choice(sorted(SUF)) if iformat == "auto" else {"json": "json-ld"}.get(iformat, iformat)
        suf[d] = rng.choice(SUF[fmt[d]] if iformat == "auto" else SUF["turtle"] + SUF["xml"] + SUF["json-ld"])
    # a document is always called by the same name
    kinds = {d: rng.choice([["iri"], ["iri"], ["iri", "lit"], ["lit"], ["path"]]) for d in docs}
    refs, statements = {}, set()
    for d, ds in imp.items():
        refs[d] = []
        for e in sorted(ds):
            for _ in range(rng.choice([1, 1, 1, 2])):
                refs[d].append([e, rng.choice(["x:onto" + d, "x:onto", "x:other" + d] + ["_:onto" + d] * interpret), rng.choice(kinds[e])])
    base = {d: content(d, docs, False) for d in imp}
    if how == "doc":
        base["root"] = base["d1"]
    cont = {d: [" ".join(t) for t in base[d]] for d in imp}
    if closure:
        # what follows only together
        for d in docs:
            cont[d].append("x:i rdf:type x:T" + d)
        cont["root"].append("x:i rdf:type x:Troot") if False else None
    if sem == "rdfs":
        cont["root"] += []
    return {"id": cid, "imp": {d: sorted(v) for d, v in imp.items()}, "how": how, "sem": sem, "interpret": interpret, "exact": how in ("memory", "doc") or sem == "none",
            "iformat": iformat, "format": fmt, "suffix": suf, "refs": refs, "base": base, "content": cont, "statements": sorted({"import " + r[1] for r in refs["root"]}),
            "all": sorted({t for v in cont.values() for t in v})}


def c17(chk):
    rng = chk.rng("c17")
    lines, st = chk.model("MCImports", env={"DOCS": "3"})
    graphs = [g["imp"] for g in tagged(lines, "IMPORTS")]
    graphs = sorted(({k: sorted(v) for k, v in g.items()} for g in graphs), key=lambda g: json.dumps(g, sort_keys=True))
    chk.cov["import_graphs"] = len(graphs)
    cases = []
    for k in range(chk.pick(1, 6)):
        for i, g in enumerate(graphs):
            cases.append(build("i%d-%d" % (k, i), rng, g))
    for i in range(chk.pick(300, 5000)):         # more documents
        ds = ["d%d" % j for j in range(1, rng.randint(4, 9))]
        p = rng.choice([.15, .3, .6])
        cases.append(build("b%d" % i, rng, {d: [e for e in ds if rng.random() < p] for d in ds + ["root"]}))
    for i, n in enumerate(chk.pick([150], [150, 600])):   # long chains and rings
        ds = ["d%d" % j for j in range(1, n + 1)]
        cases.append(build("long%d" % i, rng, dict({d: ["d%d" % (j + 2)] if j + 1 < n else ["d1"] for j, d in enumerate(ds)}, root=["d1"])))
    res = pmap(runner, cases, cpu=60, chunksize=8)
    todo = []
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            chk.violation("case %s (%s, import graph %s): %s" % (c["id"], c["how"], json.dumps(c["imp"])[:300], v), c)
        else:
            todo.append(dict(c, loads=v[0], out=v[1], left=v[2], copies=[] if c["how"] == "doc" else v[3]))
    keys = ("id", "imp", "interpret", "exact", "content", "statements", "all", "loads", "out", "left", "copies")
    verdicts = judge_tlc(chk, [{k: c[k] for k in keys} for c in todo], "ImportsTrace", "VERDICT", 800)
    chk.cov["traces_validated_against_impl"] += len(todo)
    chk.cov["documents_loaded"] = sum(len(c["loads"]) for c in todo)
    for c in todo:
        v = verdicts[c["id"]]
        bad = [v["bad"]] * bool(v["bad"])
        bad += ["%s: %s" % (w, fmt(v[k])) for k, w in (("pending", "not loaded"), ("missing", "missing"), ("extra", "unexpected"), ("copies", "blank nodes in several copies")) if v[k]]
        bad += ["%d import statements left" % v["left"]] if v["left"] else []
        if bad:
            chk.violation("case %s (%s%s): %s" % (c["id"], c["how"], "" if c["sem"] == "none" else " " + c["sem"], "; ".join(bad)), {k: c[k] for k in ("imp", "refs", "how", "sem", "loads", "out", "iformat", "suffix")})
    for c in todo[-2:]:
        chk.sample({"imports": c["imp"], "loads": c["loads"]} if len(c["imp"]) < 9 else {"documents": len(c["imp"])})
    chk.assumptions = ["a document is known by one name (the same document under a path and under a URI counts as two)"]
