"""Runs a file of expansion jobs in this process (started with a chosen PYTHONHASHSEED)."""
import json, sys, os, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import Timeout, _call, _limit
import impl


def job(j):
    rng = random.Random(j["shuffle"])
    ts = [tuple(t) for t in j["inp"]]
    if j["shuffle"]:
        rng.shuffle(ts)
    if j.get("grouped"):        # in several pieces, some triples repeatedly, via addN
        g = impl.Graph()
        k = max(1, len(ts) // 3)
        parts = [ts[i:i + k] for i in range(0, len(ts), k)]
        for p in parts + parts[:1]:
            g.addN((*impl.triple(t), g) for t in p)
    else:
        g = impl.build(ts)
    for k in range(j.get("times", 1)):
        if k:       # (error nodes are not conclusions)
            for e in set(g.subjects(impl.rdflib.RDF.type, impl.URIRef(impl.ERR + "ErrorMessage"))):
                g.remove((e, None, None))
        impl.expand(g, j["sem"], j["ax"], j["dax"])
    return impl.split_errors(g)


if __name__ == "__main__":
    _limit()
    jobs = json.load(open(sys.argv[1]))
    out = [_call((i, job, j, 60))[1] for i, j in enumerate(jobs)]
    json.dump(out, open(sys.argv[2], "w"))
