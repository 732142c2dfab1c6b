"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts RDFLib's store and parsers, TLC, and the specification (reviewed against the W3C documents, model checked)."
CHECKS = {
    "C01": ("TLA+ rule specification; TLC enumerates rule instantiation patterns and validates recorded expansions", "model_checking",
            "All aliasing patterns of every rule within the stated merge bound, plus random and long/deep graphs; every output is compared with the TLC-computed least fixpoint, so the judgement is exact per input; inputs are bounded."),
}
CHECKS["C02"] = CHECKS["C03"] = CHECKS["C04"] = CHECKS["C05"] = CHECKS["C01"]
CHECKS["C06"] = ("TLA+ specification of the inconsistency rules; recorded error reports validated against the violated instances of the specified closure", "model_checking",
                 "Every message must name a violated instance and every violated instance must be named, decided by TLC per input (all instantiation patterns, all position pairs of lists up to a bound, random ontologies); inputs are bounded.")
CHECKS["C07"] = ("TLA+ datatype-map specification; recorded expansions validated against it by TLC", "model_checking",
                 "Every supported datatype and pair of datatypes, well- and ill-typed literals judged by the TLA+ lexical specification; inputs are bounded.")
CHECKS["C08"] = ("TLA+ lexical-space grammars as finite automata; recorded conversions validated against them by TLC", "model_checking",
                 "Exhaustive up to a length over per-datatype alphabets plus grammar-derived mutations and bounds; strings are bounded.")
CHECKS["C09"] = ("TLA+ specification of facets over abstract values; facet combinations enumerated by TLC, recorded classifications validated by TLC", "model_checking",
                 "All combinations of order and of length facets on a scale around their bounds, random patterns and language ranges with an explicit matcher in TLA+, malformed definitions; definitions, values and patterns are bounded.")
CHECKS["C10"] = ("TLA+ axiom sets and option semantics; recorded expansions under every option combination validated by TLC", "model_checking",
                 "Every combination of options and semantics on generated graphs; outputs compared with the TLC-computed closure of graph and specified axioms; inputs are bounded.")
CHECKS["C11"] = ("TLA+ model of the fixpoint construction (confluence, idempotence, monotonicity model checked) and TLC-validated relations between recorded expansions of related graphs", "model_checking",
                 "Renamings, insertion orders, hash seeds, repeated and enlarged expansions of generated graphs; inputs are bounded.")
CHECKS["C12"] = ("TLA+ rule specification; recorded expansions validated by TLC for lost and illegal triples and survival of every conclusion", "model_checking",
                 "Generated graphs with generalised triples, all semantics, in place and to destinations; inputs are bounded.")
CHECKS["C13"] = ("TLA+ specification of what an expansion reads, writes and refuses; recorded dataset expansions validated by TLC", "model_checking",
                 "All combinations of kinds of graph, default_union, destination and semantics on generated data; inputs are bounded.")
CHECKS["C14"] = ("TLA+ session state machine; histories generated by TLC are replayed, the recorded outcomes validated by TLC", "model_checking",
                 "Pairs and long histories over about 56 jobs, outcomes compared with those of fresh processes; histories are bounded.")
CHECKS["C15"] = ("TLA+ session state machine; every history of calls up to a length generated by TLC is replayed and the recorded conversions validated by TLC", "model_checking",
                 "All histories of 3 calls (4 in the thorough tier) over job classes and switches, samples of longer ones, failures at ten points; histories are bounded.")
CHECKS["C16"] = ("TLA+ model of reading arbitrary collections (termination model checked); the enumerated structures are replayed, inferences from the good part validated by TLC", "model_checking",
                 "All structures of two cells, samples of three cells, malformed restrictions, datatype definitions, vocabulary and literals, all semantics and options; graphs are bounded; non-termination is judged by a CPU limit.")
CHECKS["C17"] = ("TLA+ state machine of loading imported documents, model checked over every import graph of three documents, all of which are replayed; recorded loads validated by TLC", "model_checking",
                 "All 4096 import graphs over a graph and three documents, samples of larger ones, names, formats and entry points; documents loaded are observed by an audit hook on file opening.")
CHECKS["C18"] = ("TLA+ specification of what conversion options select; all option combinations and command lines from TLC replayed, outputs validated by TLC", "model_checking",
                 "All 384 combinations of options and classes, all command lines of one flag and samples of up to three, formats, suffixes, sources, the web service; compared with direct expansions, which the other checks judge.")
CHECKS["C19"] = ("TLA+ specification of the documented trimming (model checked over all small graphs); pairs of recorded expansions with and without trimming compared by TLC", "model_checking",
                 "One-triple graphs of a vocabulary enumerated by TLC, random ontologies, datatype and facet graphs, every option and destination; graphs are bounded.")
CHECKS["C20"] = ("TLA+ state machine of the life cycle of an expansion; programs enumerated by TLC are run as subclasses, the recorded hook calls validated by TLC", "model_checking",
                 "Programs over few triples, messages and rules in every hook, on the core and on all supplied semantics, all options and destinations; programs are bounded.")
if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in props:
        if p in CHECKS:
            t, lv, note = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "/opt/venv/bin/python check.py " + p,
                                "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py " + p,
                                "evidence_file": "evidence/%s.json" % p, "technique": t, "level": lv, "level_note": note + TRUST})
        else:
            m["not_applicable"].append({"property": p, "reason": "check under construction"})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
