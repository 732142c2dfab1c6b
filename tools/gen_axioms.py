"""One-off: freeze the axiom tables of the (reviewed) tree into spec/Axioms.tla."""
import sys
sys.path.insert(0, "/verif/lib")
from terms import tostr
import owlrl.AxiomaticTriples as A

def block(name, ts):
    rows = sorted({tuple(tostr(x) for x in t) for t in ts})
    return "%s == {\n%s}\n" % (name, ",\n".join('  <<"%s", "%s", "%s">>' % r for r in rows))

out = ["------------------------------- MODULE Axioms -------------------------------",
"(* The axiomatic triples of the RDF, RDFS and OWL 2 RL vocabularies, per option. *)", ""]
out.append(block("RdfsAxioms", A.RDFS_Axiomatic_Triples))
out.append(block("RdfsDAxioms", A.RDFS_D_Axiomatic_Triples))
out.append(block("OwlAxioms", A.OWLRL_Axiomatic_Triples))
out.append(block("OwlDAxioms", A.OWLRL_D_Axiomatic_Triples))
out.append('ExtAxioms == {<<"owl:hasSelf", "rdf:type", "rdf:Property">>, <<"owl:hasSelf", "rdfs:domain", "owl:Restriction">>}')
out.append("=============================================================================")
open("/verif/spec/Axioms.tla", "w").write("\n".join(out) + "\n")
