"""Mapping between rdflib terms and the term strings of the specification."""
import json
from rdflib import URIRef, BNode, Literal

NS = {
    "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "rdfs": "http://www.w3.org/2000/01/rdf-schema#",
    "owl": "http://www.w3.org/2002/07/owl#",
    "xsd": "http://www.w3.org/2001/XMLSchema#",
    "err": "http://www.daml.org/2002/03/agents/agent-ont#",
    "x": "urn:x#",
}


def short(uri):
    for p, ns in NS.items():
        if uri.startswith(ns):
            return p + ":" + uri[len(ns):]
    return "<%s>" % uri


def long(name):
    if name.startswith("<"):
        return URIRef(name[1:-1])
    p, l = name.split(":", 1)
    return URIRef(NS[p] + l)


def tostr(t):
    """rdflib term -> term string"""
    if isinstance(t, BNode):
        return "_:" + str(t)
    if isinstance(t, URIRef):
        return short(str(t))
    if isinstance(t, Literal):
        s = json.dumps(str(t))
        if t.language is not None:
            return s + "@" + t.language
        if t.datatype is not None:
            return s + "^^" + short(str(t.datatype))
        return s
    raise TypeError(t)


def toterm(s):
    """term string -> rdflib term (literals keep their lexical form)"""
    if s.startswith("_:"):
        return BNode(s[2:])
    if s.startswith('"'):
        end = s.rindex('"')
        lex, rest = json.loads(s[: end + 1]), s[end + 1:]
        if rest.startswith("@"):
            return Literal(lex, lang=rest[1:])
        if rest.startswith("^^"):
            return Literal(lex, datatype=long(rest[2:]), normalize=False)
        return Literal(lex)
    return long(s)


def triple(t):
    return tuple(toterm(x) for x in t)


def striple(t):
    return [tostr(x) for x in t]
