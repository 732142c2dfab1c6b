"""C18: conversions; option combinations and command lines from spec/MCConvert.tla, recorded outputs validated by spec/ConvertTrace.tla."""
import contextlib, importlib.util, io, json, os, runpy, shutil, subprocess, sys, tempfile, urllib.parse
import impl
import rdflib
import owlrl
from owlrl import OWLRLExtras
from closure import *

T = "rdf:type"
# bnodes are known by their x:id
DOCS = {
    "a": [("x:C0", "rdfs:subClassOf", "x:C1"), ("x:C1", "rdfs:subClassOf", "x:C2"), ("x:p0", "rdfs:domain", "x:C0"), ("x:p0", T, "owl:SymmetricProperty"), ("x:i0", "x:p0", "x:i1"), ("_:ba", "x:p0", "x:i0"), ("_:ba", "x:id", '"ba"'),
          ("x:i0", "rdf:_2", "x:i1"), ("x:i0", "rdfs:label", '"Ünï <&> \\"q\\"\\n2"@en')],
    "b": [("x:H", "owl:intersectionOf", "_:l1"), ("_:l1", "rdf:first", "x:C1"), ("_:l1", "rdf:rest", "_:l2"), ("_:l2", "rdf:first", "x:C3"), ("_:l2", "rdf:rest", "rdf:nil"), ("_:l1", "x:id", '"l1"'), ("_:l2", "x:id", '"l2"'),
          ("x:i1", T, "x:C1"), ("x:i1", T, "x:C3"), ("x:i0", T, "x:C3"), ("x:i2", T, "x:C2"), ("x:i2", "owl:sameAs", "x:i0"), ("_:ba", T, "x:C3"), ("_:ba", "x:id", '"bb"')],
    "c": [("x:i1", "x:v", '"7"^^xsd:int'), ("x:i1", "x:v", '"abc"^^xsd:integer'), ("x:i2", "x:w", '"7"^^xsd:integer'), ("x:R", "owl:hasSelf", '"true"^^xsd:boolean'), ("x:R", "owl:onProperty", "x:p0"), ("x:i3", T, "x:R"), ("x:i1", "rdfs:label", '"plain"'),
          ("x:D", T, "rdfs:Datatype"), ("x:D", "owl:onDatatype", "xsd:integer"), ("x:D", "owl:withRestrictions", "_:d1"), ("_:d1", "rdf:first", "_:d2"), ("_:d1", "rdf:rest", "rdf:nil"), ("_:d2", "xsd:minInclusive", '"5"^^xsd:integer'),
          ("_:d1", "x:id", '"d1"'), ("_:d2", "x:id", '"d2"'), ("x:q", T, "owl:IrreflexiveProperty"), ("x:i3", "x:q", "x:i3")],
    "m": [("x:onto", "owl:imports", "IMPORT"), ("x:C2", "rdfs:subClassOf", "x:C4"), ("x:i2", T, "x:C1")],
    "n": [("x:C4", "rdfs:subClassOf", "x:C5"), ("x:n", "x:p0", "_:bn"), ("_:bn", "x:id", '"bn"')],
    "t": [("x:C3", "rdfs:subClassOf", "x:C1"), ("x:i4", "x:p0", "_:bt"), ("_:bt", "x:id", '"bt"'), ("x:p1", "owl:inverseOf", "x:p0")],
}
SETS = [["a"], ["a", "b"], ["a", "c", "t"], ["t"], ["a", "b", "m"], ["c", "m"]]
SUF = {"turtle": [".ttl", ".n3"], "xml": [".rdf", ".owl", ""], "json-ld": [".json", ".jsonld"]}
DIR = [None]


def merged(docs, interpreted):
    ts = [t for d in docs for t in DOCS[d]]
    # (blank nodes of different documents are different)
    out = []
    for d in docs:
        ren = {s: "_:" + o.strip('"') for s, p, o in DOCS[d] if p == "x:id"}
        for t in DOCS[d]:
            if t[2] == "IMPORT":
                if not interpreted:
                    out.append((t[0], t[1], "x:IMPORT"))
                continue
            out.append(tuple(ren.get(x, x) for x in t))
    return out


def table_entry(a):
    docs, interpreted, sem, ax, dax = a
    g = impl.build(merged(docs, interpreted))
    if sem != "none":
        impl.expand(g, sem, ax, dax)
    return canon(g, False)


def canon(g, parsed):
    """triples as strings; error nodes as their messages"""
    ren, errs = {}, {}
    if parsed:
        for b, m in g.subject_objects(rdflib.URIRef("urn:x#id")):
            if isinstance(b, rdflib.BNode):
                ren[b] = "_:" + str(m)
    for b in g.subjects(rdflib.RDF.type, rdflib.URIRef(impl.ERR + "ErrorMessage")):
        ms = sorted(str(m) for m in g.objects(b, rdflib.URIRef(impl.ERR + "error")))
        msg = " | ".join(ms)
        errs[b] = "ERROR " + msg
    ren.update(errs)
    out, nerr = set(), {}

    def name(x):
        if x in ren:
            return ren[x]
        if isinstance(x, rdflib.URIRef) and DIR[0] and DIR[0] in str(x):
            return "x:IMPORT"
        return impl.tostr(x)
    for t in g:
        out.add(tuple(name(x) for x in t))
    for m in errs.values():
        nerr[m] = nerr.get(m, 0) + 1
    out = {t for t in out if not t[0].startswith("ERROR")} | {("ERROR", "x %d" % n, m) for m, n in nerr.items()}
    return sorted(out)


def unreachable(ts):
    """The triples of blank nodes that only blank nodes refer to (in the end, themselves)."""
    bn = lambda x: x.startswith("_:")
    subjects = {t[0] for t in ts}
    objects = {t[2] for t in ts}
    todo = [s for s in subjects if not bn(s) or s not in objects]
    out = {}
    for t in ts:
        out.setdefault(t[0], []).append(t[2])
    seen = set(todo)
    while todo:
        for o in out.get(todo.pop(), ()):
            if o not in seen:
                seen.add(o)
                todo.append(o)
    return {t for t in ts if bn(t[0]) and t[0] not in seen}


def docgraph(d, imported, json_ld=False):
    g = rdflib.Graph()
    # (RDFLib's JSON-LD parser keeps labels)
    ren = {s: "_:" + o.strip('"') for s, p, o in DOCS[d] if p == "x:id"} if json_ld else {}
    for t in DOCS[d]:
        t = tuple(imported if x == "IMPORT" else ren.get(x, x) for x in t)
        g.add(impl.triple(t))
    return g


def write_docs(tmp):
    """Every document in every format and under every suffix; returns {(doc, format, suffix): path}"""
    paths = {}

    def write(d, f, suf, g):
        # (the documents have the same names, in different directories)
        p = paths[d, f, suf] = os.path.join(tmp, d, "doc-%s%s" % (f, suf))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        g.serialize(p, format=f)
        return p
    for f, sufs in SUF.items():
        for suf in sufs + [".ttl", ".rdf", ".json"]:
            p = write("n", f, suf, docgraph("n", None, f == "json-ld"))
            for d in "abct":
                write(d, f, suf, docgraph(d, None, f == "json-ld"))
            write("m", f, suf, docgraph("m", "<file://%s>" % urllib.parse.quote(p)))
    return paths


def parse_output(text, fmt):
    g = rdflib.Graph()
    g.parse(data=text, format={"turtle": "turtle", "rdfxml": "xml", "xml": "xml", "json": "json-ld"}[fmt])
    return canon(g, True)


CLASSES = {"rdfs": owlrl.RDFS_Semantics, "owl": owlrl.OWLRL_Semantics, "comb": owlrl.RDFS_OWLRL_Semantics, "ext": OWLRLExtras.OWLRL_Extension, "trim": OWLRLExtras.OWLRL_Extension_Trimming}


def runner(c):
    DIR[0] = c["dir"]
    if c["mode"] == "api":
        o = type("Options", (), {})()
        for k, v in c["opts"].items():
            if v != "missing":
                setattr(o, k, {"True!": True, "False!": False, "None!": None}.get(v, v))
        o.sources, o.text, o.format = list(c["sources"]), c["text"], c["format"]
        if c["iformat"] != "missing":
            o.iformat = c["iformat"]
        if c["legacy"]:
            o.source = c["legacy"]
        text = owlrl.convert_graph(o, closureClass=CLASSES.get(c["cls"])) if c["cls"] != "-" else owlrl.convert_graph(o)
        return parse_output(text, c["format"])
    env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore")
    if c["mode"] == "cgi":
        env.update(REQUEST_METHOD="GET", QUERY_STRING=urllib.parse.urlencode(c["form"]))
        p = subprocess.run([sys.executable, os.path.join(impl.REPO, "scripts", "RDFConvertService")], env=env, capture_output=True, text=True, timeout=90, encoding="utf-8", cwd="/")
        head, _, text = p.stdout.partition("\n\n")
        if "Status: 400" in head or p.returncode:
            raise Exception("web service failed: %s %s" % (p.stdout[-800:], p.stderr[-800:]))
        return parse_output(text, c["format"])
    script = os.path.join(impl.REPO, "scripts", "owlrl")
    if c["process"]:
        p = subprocess.run([sys.executable, script] + c["argv"], env=env, input=c["stdin"], capture_output=True, text=True, timeout=90, encoding="utf-8", cwd="/")
        if p.returncode:
            raise Exception("exit status %d: %s" % (p.returncode, p.stderr[-800:]))
        return parse_output(p.stdout, c["format"])
    out, old = io.StringIO(), (sys.argv, sys.stdin)
    try:
        sys.argv = [script] + c["argv"]
        sys.stdin = io.TextIOWrapper(io.BytesIO(c["stdin"].encode("utf-8")), encoding="utf-8")
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                if e.code:
                    raise Exception("exit status %s" % e.code)
    finally:
        sys.argv, sys.stdin = old
    return parse_output(out.getvalue(), c["format"])


def sources(rng, paths, docs, iformat):
    """(paths, docs) in some format; the imported document has the format of its suffix"""
    out = []
    same = rng.random() < .5    # (the same file name in different directories)
    for i, d in enumerate(docs):
        if i and same:
            pass
        elif iformat in ("auto", "missing"):
            f = rng.choice(sorted(SUF))
            suf = rng.choice(SUF[f])
        else:
            f = {"json": "json-ld", "rdfxml": "xml"}.get(iformat, iformat)
            suf = rng.choice(SUF[f] + [".ttl", ".rdf", ".json"])
        p = paths[d, f, suf]
        out.append("file://" + urllib.parse.quote(p) if rng.random() < .25 else p)
    return out


FLAG = {"owlClosure": ("-w", "--owlrl"), "rdfsClosure": ("-r", "--rdfs"), "owlExtras": ("-e", "--extras"), "axioms": ("-a", "--axioms"), "daxioms": ("-d", "--daxioms"), "trimming": ("-t", "--trimming"), "maximal": ("-m", "--maximal")}


def c18(chk):
    rng = chk.rng("c18")
    tmp = tempfile.mkdtemp(prefix="convert")
    try:
        check(chk, rng, tmp)
    finally:
        shutil.rmtree(tmp)


def check(chk, rng, tmp):
    DIR[0] = tmp
    paths = write_docs(tmp)
    lines, st = chk.model("MCConvert", env={"LEN": "3"})
    combos = sorted(tagged(lines, "CONVERT"), key=lambda x: json.dumps(x, sort_keys=True))
    api = [x for x in combos if x["mode"] == "api"]
    cli = [x for x in combos if x["mode"] == "cli"]
    chk.cov["option_combinations"], chk.cov["command_lines"] = len(api), len(cli)
    cases = []
    text = docgraph("t", None).serialize(format="turtle")
    YES, NO = ["True!", "yes", "Yes", "True", "true"], ["False!", "no", "No", "False", "false"]
    for k in range(chk.pick(1, 4)):
        for i, x in enumerate(api):
            opts = {o: rng.choice(YES if v == "yes" else NO) for o, v in x["opts"].items()}
            if x["opts"]["trimming"] == "no" and rng.random() < .2:
                opts["trimming"] = "missing"
            docs = rng.choice(SETS)
            iformat = rng.choice(["auto", "auto", "auto", "missing", "turtle", "xml", "rdfxml", "json"])
            files = [d for d in docs if d != "t" or rng.random() < .5]
            src = sources(rng, paths, files, iformat)
            if rng.random() < .2:
                src += rng.sample(src, min(1, len(src)))     # the same file twice
            rng.shuffle(src)
            legacy = src.pop() if len(src) > 1 and rng.random() < .1 else None
            cases.append({"id": "a%d-%d" % (k, i), "mode": "api", "opts": dict(opts), "cls": x["cls"], "sources": src, "legacy": legacy, "text": text if len(files) < len(docs) else rng.choice([None, "", None, " \n"] if src else [None, ""]),
                          "format": rng.choice(["turtle", "turtle", "xml", "rdfxml", "json"]), "iformat": iformat, "docs": docs, "flags": []})
    every = [x for x in cli if len(x["flags"]) <= 1]
    rest = [x for x in cli if len(x["flags"]) > 1]
    for i, x in enumerate(every + rng.sample(rest, chk.pick(100, 1500))):
        argv = []
        for f in x["flags"]:
            sh, lg = FLAG[f["n"]]
            argv += [sh] if f["v"] == "short" else [lg] if f["v"] == "long" else rng.choice([[lg, f["v"]], [lg + "=" + f["v"]]])
        docs = rng.choice([s for s in SETS])
        iformat = rng.choice(["auto", "auto", "auto", "turtle", "xml", "json"])
        ofmt = rng.choice(["turtle", "xml", "json"])
        if ofmt != "turtle" or rng.random() < .3:
            argv += rng.choice([["-o", ofmt], ["-s", ofmt], ["--serialization", ofmt], ["--syntax=" + ofmt]])
        if iformat != "auto" or rng.random() < .3:
            argv += rng.choice([["-i", iformat], ["--input_syntax=" + iformat]])
        stdin = ""
        how = rng.random()
        src = sources(rng, paths, docs, iformat)
        if how < .2 and len(docs) == 1 and docs != ["m"]:
            stdin = docgraph(docs[0], None).serialize(format={"auto": "turtle", "json": "json-ld"}.get(iformat, iformat))
            argv += rng.choice([[], ["-"], ["-f", "-"]])
        elif how < .5:
            argv = rng.choice([argv + ["-f", src[0]], ["--file=" + src[0]] + argv]) + src[1:]
        else:
            argv += src
        cases.append({"id": "c%d" % i, "mode": "cli", "argv": argv, "stdin": stdin, "flags": x["flags"], "opts": {}, "cls": "-", "format": ofmt, "docs": docs, "process": i % chk.pick(4, 8) == 0})
    if importlib.util.find_spec("cgi"):
        fields = ["owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms", "fullClosure"]
        for i in range(chk.pick(24, 200)):
            form = {f: rng.choice(["yes", "no"]) for f in rng.sample(fields[:5], rng.randint(0, 5))}
            if rng.random() < .25:
                form["fullClosure"] = rng.choice(["yes", "yes", "no"])
            docs = rng.choice([s for s in SETS if len(s) < 4])
            iformat = rng.choice(["auto", "auto", "turtle", "xml"])
            files = [d for d in docs if d != "t"]
            src = sources(rng, paths, files, iformat)
            names = rng.sample(["source_1", "source_2", "uri", "source"], len(src))
            ofmt = rng.choice(["turtle", "turtle", "xml", "rdfxml"])
            q = dict(form, **dict(zip(names, src)))
            if "t" in docs:
                q["text"] = text
            if iformat != "auto" or rng.random() < .3:
                q["iformat"] = iformat
            if ofmt != "turtle" or rng.random() < .5:
                q["format"] = ofmt
            cases.append({"id": "w%d" % i, "mode": "cgi", "form": q, "opts": form or {"none": "no"}, "cls": "-", "flags": [], "format": ofmt, "docs": docs})
    for c in cases:
        c["dir"] = tmp
    refusals(chk, tmp)
    rdfa(chk, tmp)
    # what each semantics makes of the documents
    keys = []
    sets = sorted({tuple(c["docs"]) for c in cases})
    for ds in sets:
        for inter in (False, True):
            full = sorted(set(ds) | ({"n"} if inter and "m" in ds else set()))
            for sem in ["none", "rdfs", "owl", "comb", "ext", "extrdfs", "trim", "trimrdfs"]:
                for ax in (False, True):
                    for dax in (False, True):
                        if sem == "none" and (ax or dax):
                            continue
                        keys.append((full, inter, sem, ax, dax))
    # (interpreting imports makes a difference only if there are any)
    todo = {json.dumps([k[0], k[1] and "m" in k[0]] + list(k[2:])): [k[0], k[1] and "m" in k[0]] + list(k[2:]) for k in keys}
    res = dict(zip(todo, pmap(table_entry, list(todo.values()), cpu=90, chunksize=2)))
    ids = {}
    num = lambda t: ids.setdefault(tuple(t), len(ids) + 1)
    table = []
    for k in keys:
        st, v = res[json.dumps([k[0], k[1] and "m" in k[0]] + list(k[2:]))]
        if st != "ok":
            raise MachineryError("expansion of the documents failed: %s" % v)
        table.append({"docs": list(k[0]), "interpreted": k[1], "sem": k[2], "ax": k[3], "dax": k[4], "out": [num(t) for t in v]})
    outs, pool, done = [], {}, []
    for c, (st, v) in zip(cases, pmap(runner, cases, cpu=90, chunksize=1)):
        if st != "ok":
            chk.violation("case %s: conversion failed: %s" % (show(c), v), c)
            continue
        o = tuple(sorted(num(t) for t in v))
        if o not in pool:
            outs.append(list(o))
            pool[o] = len(outs)
        done.append(dict(c, out=pool[o]))
    gen = [i for t, i in ids.items() if t[0] != "ERROR" and (t[0].startswith('"') or t[1].startswith(('"', "_:")))]
    back = {i: t for t, i in ids.items()}
    f = os.path.join(tmp, "cases.json")
    json.dump({"table": table, "gen": gen, "outs": outs, "imports": {"m": ["n"]}, "cases": [{k: c[k] for k in ("id", "mode", "opts", "cls", "flags", "docs", "out")} for c in done]}, open(f, "w"))
    lines, st, out = chk.tlc("ConvertTrace", env={"CASES": f}, timeout=800, mem="12g")
    verdicts = {v["case"]: v for v in tagged(lines, "VERDICT")}
    if len(verdicts) != len(done):
        raise MachineryError("%d verdicts for %d cases\n%s" % (len(verdicts), len(done), out[-2000:]))
    chk.cov["traces_validated_against_impl"] += len(done)
    chk.cov["different_results"] = len(outs)
    for c in done:
        v = verdicts[c["id"]]
        if v["missing"] or v["extra"]:
            d = {k: [" ".join(back[i]) for i in v[k]] for k in ("missing", "extra")}
            full = {back[i] for i in outs[c["out"] - 1]} | {back[i] for i in v["missing"]}
            key = "json-blank-nodes" if c["format"] == "json" and not v["extra"] and {back[i] for i in v["missing"]} == unreachable(full) else None
            chk.violation("case %s: expected %s of %s; %s" % (show(c), json.dumps(v["key"]), "+".join(c["docs"]), "; ".join("%s: %s" % (k, fmt(d[k], 4)) for k in d if d[k])), dict(c, verdict=d), key=key)
    for c in done[:1] + done[-2:]:
        chk.sample({"case": show(c), "triples": len(outs[c["out"] - 1])})


def show(c):
    if c["mode"] == "cli":
        return "%s (owlrl %s)" % (c["id"], " ".join(c["argv"]))
    if c["mode"] == "cgi":
        return "%s (web service %s)" % (c["id"], {k: v for k, v in c["form"].items() if k != "text"})
    return "%s (convert_graph %s%s, %s from %s, format %s, iformat %s)" % (c["id"], {k: v for k, v in c["opts"].items()}, "" if c["cls"] == "-" else " class " + c["cls"], "text" if c["text"] else "no text", c["sources"], c["format"], c["iformat"])


def refusals(chk, tmp):
    for text in (None, "", " \n "):
        try:
            owlrl.convert_graph(impl.convert_options("owl", text=text))
        except Exception:
            continue
        chk.violation("convert_graph without any source does not fail", {"text": text})


def rdfa(chk, tmp):
    """RDFa is documented as an input format."""
    p = os.path.join(tmp, "r.html")
    open(p, "w").write('<!DOCTYPE html><html prefix="x: urn:x#"><body><p about="urn:x#a" property="x:p">v</p></body></html>')
    for kw in ({"sources": [p]}, {"sources": [p], "iformat": "rdfa"}):
        try:
            g = rdflib.Graph()
            g.parse(data=owlrl.convert_graph(impl.convert_options("none", **kw)), format="turtle")
            if not any(str(s) == "urn:x#a" for s in g.subjects()):
                chk.violation("RDFa input is not read", kw, key="rdfa-input")
        except Exception as e:
            chk.violation("RDFa input fails: %s" % e, kw, key="rdfa-input")
