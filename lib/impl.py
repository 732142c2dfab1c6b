"""Running the implementation under test."""
import os, sys, logging, warnings
REPO = os.environ.get("OWLRL_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import rdflib                                     # noqa: E402
from rdflib import Graph, BNode, Literal, URIRef  # noqa: E402
import owlrl                                      # noqa: E402
from owlrl import OWLRLExtras                     # noqa: E402
from terms import tostr, toterm, triple, striple  # noqa: E402

assert os.path.realpath(owlrl.__file__).startswith(os.path.realpath(REPO)), owlrl.__file__

CLASSES = {
    "rdfs": (owlrl.RDFS_Semantics, False),
    "owl": (owlrl.OWLRL_Semantics, False),
    "comb": (owlrl.RDFS_OWLRL_Semantics, True),
    "ext": (OWLRLExtras.OWLRL_Extension, False),
    "extrdfs": (OWLRLExtras.OWLRL_Extension, True),
    "trim": (OWLRLExtras.OWLRL_Extension_Trimming, False),
    "trimrdfs": (OWLRLExtras.OWLRL_Extension_Trimming, True),
}
ERR = "http://www.daml.org/2002/03/agents/agent-ont#"


def build(triples, g=None):
    g = Graph() if g is None else g
    for t in triples:
        g.add(triple(t))
    return g


def expand(g, sem, ax=False, dax=False, destination=None, improved=True):
    cls, rdfs = CLASSES[sem]
    owlrl.DeductiveClosure(cls, improved_datatypes=improved, rdfs_closure=rdfs, axiomatic_triples=ax,
                           datatype_axioms=dax).expand(g, destination=destination)
    return g


def split_errors(g):
    """(triples as string tuples without the error nodes, list of error messages)"""
    errnodes = {s for s, p, o in g.triples((None, rdflib.RDF.type, URIRef(ERR + "ErrorMessage")))}
    msgs = [str(o) for s, p, o in g.triples((None, URIRef(ERR + "error"), None)) if s in errnodes]
    trip = sorted({tuple(striple(t)) for t in g if t[0] not in errnodes})
    return trip, msgs


def convert_options(sem, text=None, sources=(), **kw):
    """Options for convert_graph that select this semantics."""
    import types
    o = types.SimpleNamespace(sources=list(sources), text=text, owlClosure=sem not in ("rdfs", "none"), rdfsClosure=sem in ("rdfs", "comb", "extrdfs", "trimrdfs"),
                              owlExtras=sem.startswith(("ext", "trim")), trimming=sem.startswith("trim"), axioms=False, daxioms=False, format="turtle", iformat="auto")
    for k, v in kw.items():
        setattr(o, k, v)
    return o
