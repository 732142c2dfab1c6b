----------------------------- MODULE RuleTable ------------------------------
(***************************************************************************)
(* The W3C rules as data, one row per rule (list rules: per list length).  *)
(*   v     variables;  cells   variables that stand for list cells         *)
(*   body  premises;   lists   premises spelling out the collections       *)
(*   head  conclusions (none for inconsistency rules)                      *)
(*   who   for inconsistency rules, what an error report has to name       *)
(* This table is the reference: MCRules checks the set-based operators of  *)
(* RuleSets and Violations against it, and generates test graphs from it.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

R(name, v, cells, body, lists, head) ==
  [name |-> name, v |-> v, cells |-> cells, body |-> body, lists |-> lists, head |-> head, bad |-> FALSE, who |-> <<>>]
V(name, v, cells, body, lists, who) ==
  [name |-> name, v |-> v, cells |-> cells, body |-> body, lists |-> lists, head |-> {}, bad |-> TRUE, who |-> who]

RuleTable == <<
  R("eq-ref", {"s", "p", "o"}, {},
    <<<<"s", "p", "o">>>>,
    <<>>,
    {<<"s", "owl:sameAs", "s">>, <<"p", "owl:sameAs", "p">>, <<"o", "owl:sameAs", "o">>}),
  R("eq-sym", {"x", "y"}, {},
    <<<<"x", "owl:sameAs", "y">>>>,
    <<>>,
    {<<"y", "owl:sameAs", "x">>}),
  R("eq-trans", {"x", "y", "z"}, {},
    <<<<"x", "owl:sameAs", "y">>, <<"y", "owl:sameAs", "z">>>>,
    <<>>,
    {<<"x", "owl:sameAs", "z">>}),
  R("eq-rep-s", {"s", "t", "p", "o"}, {},
    <<<<"s", "owl:sameAs", "t">>, <<"s", "p", "o">>>>,
    <<>>,
    {<<"t", "p", "o">>}),
  R("eq-rep-p", {"p", "q", "s", "o"}, {},
    <<<<"p", "owl:sameAs", "q">>, <<"s", "p", "o">>>>,
    <<>>,
    {<<"s", "q", "o">>}),
  R("eq-rep-o", {"o", "q", "s", "p"}, {},
    <<<<"o", "owl:sameAs", "q">>, <<"s", "p", "o">>>>,
    <<>>,
    {<<"s", "p", "q">>}),
  R("prp-dom", {"p", "c", "x", "y"}, {},
    <<<<"p", "rdfs:domain", "c">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"x", "rdf:type", "c">>}),
  R("prp-rng", {"p", "c", "x", "y"}, {},
    <<<<"p", "rdfs:range", "c">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"y", "rdf:type", "c">>}),
  R("prp-fp", {"p", "x", "y1", "y2"}, {},
    <<<<"p", "rdf:type", "owl:FunctionalProperty">>, <<"x", "p", "y1">>, <<"x", "p", "y2">>>>,
    <<>>,
    {<<"y1", "owl:sameAs", "y2">>}),
  R("prp-ifp", {"p", "x1", "y", "x2"}, {},
    <<<<"p", "rdf:type", "owl:InverseFunctionalProperty">>, <<"x1", "p", "y">>, <<"x2", "p", "y">>>>,
    <<>>,
    {<<"x1", "owl:sameAs", "x2">>}),
  R("prp-symp", {"p", "x", "y"}, {},
    <<<<"p", "rdf:type", "owl:SymmetricProperty">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"y", "p", "x">>}),
  R("prp-trp", {"p", "x", "y", "z"}, {},
    <<<<"p", "rdf:type", "owl:TransitiveProperty">>, <<"x", "p", "y">>, <<"y", "p", "z">>>>,
    <<>>,
    {<<"x", "p", "z">>}),
  R("prp-spo1", {"p", "q", "x", "y"}, {},
    <<<<"p", "rdfs:subPropertyOf", "q">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"x", "q", "y">>}),
  R("prp-spo2", {"p", "u1", "p1", "u2"}, {"l"},
    <<<<"p", "owl:propertyChainAxiom", "l">>, <<"u1", "p1", "u2">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"u1", "p", "u2">>}),
  R("prp-spo2", {"p", "u1", "p1", "u2", "p2", "u3"}, {"l", "l2"},
    <<<<"p", "owl:propertyChainAxiom", "l">>, <<"u1", "p1", "u2">>, <<"u2", "p2", "u3">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "p2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"u1", "p", "u3">>}),
  R("prp-spo2", {"p", "u1", "p1", "u2", "p2", "u3", "p3", "u4"}, {"l", "l2", "l3"},
    <<<<"p", "owl:propertyChainAxiom", "l">>, <<"u1", "p1", "u2">>, <<"u2", "p2", "u3">>, <<"u3", "p3", "u4">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "p2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "p3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"u1", "p", "u4">>}),
  R("prp-eqp1", {"p", "q", "x", "y"}, {},
    <<<<"p", "owl:equivalentProperty", "q">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"x", "q", "y">>}),
  R("prp-eqp2", {"p", "q", "x", "y"}, {},
    <<<<"p", "owl:equivalentProperty", "q">>, <<"x", "q", "y">>>>,
    <<>>,
    {<<"x", "p", "y">>}),
  R("prp-inv1", {"p", "q", "x", "y"}, {},
    <<<<"p", "owl:inverseOf", "q">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"y", "q", "x">>}),
  R("prp-inv2", {"p", "q", "x", "y"}, {},
    <<<<"p", "owl:inverseOf", "q">>, <<"x", "q", "y">>>>,
    <<>>,
    {<<"y", "p", "x">>}),
  R("prp-key", {"c", "x", "y", "p1", "z1"}, {"l"},
    <<<<"c", "owl:hasKey", "l">>, <<"x", "rdf:type", "c">>, <<"y", "rdf:type", "c">>, <<"x", "p1", "z1">>, <<"y", "p1", "z1">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"x", "owl:sameAs", "y">>}),
  R("prp-key", {"c", "x", "y", "p1", "z1", "p2", "z2"}, {"l", "l2"},
    <<<<"c", "owl:hasKey", "l">>, <<"x", "rdf:type", "c">>, <<"y", "rdf:type", "c">>, <<"x", "p1", "z1">>, <<"y", "p1", "z1">>, <<"x", "p2", "z2">>, <<"y", "p2", "z2">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "p2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"x", "owl:sameAs", "y">>}),
  R("prp-key", {"c", "x", "y", "p1", "z1", "p2", "z2", "p3", "z3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:hasKey", "l">>, <<"x", "rdf:type", "c">>, <<"y", "rdf:type", "c">>, <<"x", "p1", "z1">>, <<"y", "p1", "z1">>, <<"x", "p2", "z2">>, <<"y", "p2", "z2">>, <<"x", "p3", "z3">>, <<"y", "p3", "z3">>>>,
    <<<<"l", "rdf:first", "p1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "p2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "p3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"x", "owl:sameAs", "y">>}),
  R("cls-int1", {"c", "y", "e1"}, {"l"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "e1">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-int1", {"c", "y", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "e1">>, <<"y", "rdf:type", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-int1", {"c", "y", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "e1">>, <<"y", "rdf:type", "e2">>, <<"y", "rdf:type", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-int2", {"c", "y", "e1"}, {"l"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "c">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "e1">>}),
  R("cls-uni", {"c", "y", "e1"}, {"l"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e1">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-oo", {"c", "e1"}, {"l"},
    <<<<"c", "owl:oneOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdf:type", "c">>}),
  R("scm-int", {"c", "e1"}, {"l"},
    <<<<"c", "owl:intersectionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"c", "rdfs:subClassOf", "e1">>}),
  R("scm-uni", {"c", "e1"}, {"l"},
    <<<<"c", "owl:unionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdfs:subClassOf", "c">>}),
  R("cls-int2", {"c", "y", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "c">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "e1">>, <<"y", "rdf:type", "e2">>}),
  R("cls-uni", {"c", "y", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e1">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-uni", {"c", "y", "e2", "e1"}, {"l", "l2"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-oo", {"c", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:oneOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdf:type", "c">>, <<"e2", "rdf:type", "c">>}),
  R("scm-int", {"c", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:intersectionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"c", "rdfs:subClassOf", "e1">>, <<"c", "rdfs:subClassOf", "e2">>}),
  R("scm-uni", {"c", "e1", "e2"}, {"l", "l2"},
    <<<<"c", "owl:unionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdfs:subClassOf", "c">>, <<"e2", "rdfs:subClassOf", "c">>}),
  R("cls-int2", {"c", "y", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:intersectionOf", "l">>, <<"y", "rdf:type", "c">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "e1">>, <<"y", "rdf:type", "e2">>, <<"y", "rdf:type", "e3">>}),
  R("cls-uni", {"c", "y", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e1">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-uni", {"c", "y", "e2", "e1", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-uni", {"c", "y", "e3", "e1", "e2"}, {"l", "l2", "l3"},
    <<<<"c", "owl:unionOf", "l">>, <<"y", "rdf:type", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"y", "rdf:type", "c">>}),
  R("cls-oo", {"c", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:oneOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdf:type", "c">>, <<"e2", "rdf:type", "c">>, <<"e3", "rdf:type", "c">>}),
  R("scm-int", {"c", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:intersectionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"c", "rdfs:subClassOf", "e1">>, <<"c", "rdfs:subClassOf", "e2">>, <<"c", "rdfs:subClassOf", "e3">>}),
  R("scm-uni", {"c", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"c", "owl:unionOf", "l">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    {<<"e1", "rdfs:subClassOf", "c">>, <<"e2", "rdfs:subClassOf", "c">>, <<"e3", "rdfs:subClassOf", "c">>}),
  R("cls-svf1", {"x", "y", "p", "u", "v"}, {},
    <<<<"x", "owl:someValuesFrom", "y">>, <<"x", "owl:onProperty", "p">>, <<"u", "p", "v">>, <<"v", "rdf:type", "y">>>>,
    <<>>,
    {<<"u", "rdf:type", "x">>}),
  R("cls-svf2", {"x", "p", "u", "v"}, {},
    <<<<"x", "owl:someValuesFrom", "owl:Thing">>, <<"x", "owl:onProperty", "p">>, <<"u", "p", "v">>>>,
    <<>>,
    {<<"u", "rdf:type", "x">>}),
  R("cls-avf", {"x", "y", "p", "u", "v"}, {},
    <<<<"x", "owl:allValuesFrom", "y">>, <<"x", "owl:onProperty", "p">>, <<"u", "rdf:type", "x">>, <<"u", "p", "v">>>>,
    <<>>,
    {<<"v", "rdf:type", "y">>}),
  R("cls-hv1", {"x", "y", "p", "u"}, {},
    <<<<"x", "owl:hasValue", "y">>, <<"x", "owl:onProperty", "p">>, <<"u", "rdf:type", "x">>>>,
    <<>>,
    {<<"u", "p", "y">>}),
  R("cls-hv2", {"x", "y", "p", "u"}, {},
    <<<<"x", "owl:hasValue", "y">>, <<"x", "owl:onProperty", "p">>, <<"u", "p", "y">>>>,
    <<>>,
    {<<"u", "rdf:type", "x">>}),
  R("cls-maxc2", {"x", "p", "u", "y1", "y2"}, {},
    <<<<"x", "owl:maxCardinality", "\"1\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y1">>, <<"u", "p", "y2">>>>,
    <<>>,
    {<<"y1", "owl:sameAs", "y2">>}),
  R("cls-maxqc3", {"x", "p", "c", "u", "y1", "y2"}, {},
    <<<<"x", "owl:maxQualifiedCardinality", "\"1\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"x", "owl:onClass", "c">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y1">>, <<"y1", "rdf:type", "c">>, <<"u", "p", "y2">>, <<"y2", "rdf:type", "c">>>>,
    <<>>,
    {<<"y1", "owl:sameAs", "y2">>}),
  R("cls-maxqc4", {"x", "p", "u", "y1", "y2"}, {},
    <<<<"x", "owl:maxQualifiedCardinality", "\"1\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"x", "owl:onClass", "owl:Thing">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y1">>, <<"u", "p", "y2">>>>,
    <<>>,
    {<<"y1", "owl:sameAs", "y2">>}),
  R("cax-sco", {"c", "d", "x"}, {},
    <<<<"c", "rdfs:subClassOf", "d">>, <<"x", "rdf:type", "c">>>>,
    <<>>,
    {<<"x", "rdf:type", "d">>}),
  R("cax-eqc1", {"c", "d", "x"}, {},
    <<<<"c", "owl:equivalentClass", "d">>, <<"x", "rdf:type", "c">>>>,
    <<>>,
    {<<"x", "rdf:type", "d">>}),
  R("cax-eqc2", {"c", "d", "x"}, {},
    <<<<"c", "owl:equivalentClass", "d">>, <<"x", "rdf:type", "d">>>>,
    <<>>,
    {<<"x", "rdf:type", "c">>}),
  R("scm-cls", {"c"}, {},
    <<<<"c", "rdf:type", "owl:Class">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "c">>, <<"c", "owl:equivalentClass", "c">>, <<"c", "rdfs:subClassOf", "owl:Thing">>, <<"owl:Nothing", "rdfs:subClassOf", "c">>}),
  R("scm-sco", {"c", "d", "e"}, {},
    <<<<"c", "rdfs:subClassOf", "d">>, <<"d", "rdfs:subClassOf", "e">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "e">>}),
  R("scm-eqc1", {"c", "d"}, {},
    <<<<"c", "owl:equivalentClass", "d">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "d">>, <<"d", "rdfs:subClassOf", "c">>}),
  R("scm-eqc2", {"c", "d"}, {},
    <<<<"c", "rdfs:subClassOf", "d">>, <<"d", "rdfs:subClassOf", "c">>>>,
    <<>>,
    {<<"c", "owl:equivalentClass", "d">>}),
  R("scm-op", {"p"}, {},
    <<<<"p", "rdf:type", "owl:ObjectProperty">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "p">>, <<"p", "owl:equivalentProperty", "p">>}),
  R("scm-dp", {"p"}, {},
    <<<<"p", "rdf:type", "owl:DatatypeProperty">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "p">>, <<"p", "owl:equivalentProperty", "p">>}),
  R("scm-prop", {"p"}, {},
    <<<<"p", "rdf:type", "rdf:Property">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "p">>, <<"p", "owl:equivalentProperty", "p">>}),
  R("scm-spo", {"p", "q", "r"}, {},
    <<<<"p", "rdfs:subPropertyOf", "q">>, <<"q", "rdfs:subPropertyOf", "r">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "r">>}),
  R("scm-eqp1", {"p", "q"}, {},
    <<<<"p", "owl:equivalentProperty", "q">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "q">>, <<"q", "rdfs:subPropertyOf", "p">>}),
  R("scm-eqp2", {"p", "q"}, {},
    <<<<"p", "rdfs:subPropertyOf", "q">>, <<"q", "rdfs:subPropertyOf", "p">>>>,
    <<>>,
    {<<"p", "owl:equivalentProperty", "q">>}),
  R("scm-dom1", {"p", "c", "d"}, {},
    <<<<"p", "rdfs:domain", "c">>, <<"c", "rdfs:subClassOf", "d">>>>,
    <<>>,
    {<<"p", "rdfs:domain", "d">>}),
  R("scm-dom2", {"q", "c", "p"}, {},
    <<<<"q", "rdfs:domain", "c">>, <<"p", "rdfs:subPropertyOf", "q">>>>,
    <<>>,
    {<<"p", "rdfs:domain", "c">>}),
  R("scm-rng1", {"p", "c", "d"}, {},
    <<<<"p", "rdfs:range", "c">>, <<"c", "rdfs:subClassOf", "d">>>>,
    <<>>,
    {<<"p", "rdfs:range", "d">>}),
  R("scm-rng2", {"q", "c", "p"}, {},
    <<<<"q", "rdfs:range", "c">>, <<"p", "rdfs:subPropertyOf", "q">>>>,
    <<>>,
    {<<"p", "rdfs:range", "c">>}),
  R("scm-hv", {"c", "i", "p", "d", "q"}, {},
    <<<<"c", "owl:hasValue", "i">>, <<"c", "owl:onProperty", "p">>, <<"d", "owl:hasValue", "i">>, <<"d", "owl:onProperty", "q">>, <<"p", "rdfs:subPropertyOf", "q">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "d">>}),
  R("scm-svf1", {"c", "y", "p", "d", "z"}, {},
    <<<<"c", "owl:someValuesFrom", "y">>, <<"c", "owl:onProperty", "p">>, <<"d", "owl:someValuesFrom", "z">>, <<"d", "owl:onProperty", "p">>, <<"y", "rdfs:subClassOf", "z">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "d">>}),
  R("scm-svf2", {"c", "y", "p", "d", "q"}, {},
    <<<<"c", "owl:someValuesFrom", "y">>, <<"c", "owl:onProperty", "p">>, <<"d", "owl:someValuesFrom", "y">>, <<"d", "owl:onProperty", "q">>, <<"p", "rdfs:subPropertyOf", "q">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "d">>}),
  R("scm-avf1", {"c", "y", "p", "d", "z"}, {},
    <<<<"c", "owl:allValuesFrom", "y">>, <<"c", "owl:onProperty", "p">>, <<"d", "owl:allValuesFrom", "z">>, <<"d", "owl:onProperty", "p">>, <<"y", "rdfs:subClassOf", "z">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "d">>}),
  R("scm-avf2", {"c", "y", "p", "d", "q"}, {},
    <<<<"c", "owl:allValuesFrom", "y">>, <<"c", "owl:onProperty", "p">>, <<"d", "owl:allValuesFrom", "y">>, <<"d", "owl:onProperty", "q">>, <<"p", "rdfs:subPropertyOf", "q">>>>,
    <<>>,
    {<<"d", "rdfs:subClassOf", "c">>}),
  R("rdf1", {"s", "p", "o"}, {},
    <<<<"s", "p", "o">>>>,
    <<>>,
    {<<"p", "rdf:type", "rdf:Property">>}),
  R("rdfs2", {"p", "c", "x", "y"}, {},
    <<<<"p", "rdfs:domain", "c">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"x", "rdf:type", "c">>}),
  R("rdfs3", {"p", "c", "x", "y"}, {},
    <<<<"p", "rdfs:range", "c">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"y", "rdf:type", "c">>}),
  R("rdfs4a", {"s", "p", "o"}, {},
    <<<<"s", "p", "o">>>>,
    <<>>,
    {<<"s", "rdf:type", "rdfs:Resource">>}),
  R("rdfs4b", {"s", "p", "o"}, {},
    <<<<"s", "p", "o">>>>,
    <<>>,
    {<<"o", "rdf:type", "rdfs:Resource">>}),
  R("rdfs5", {"p", "q", "r"}, {},
    <<<<"p", "rdfs:subPropertyOf", "q">>, <<"q", "rdfs:subPropertyOf", "r">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "r">>}),
  R("rdfs6", {"p"}, {},
    <<<<"p", "rdf:type", "rdf:Property">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "p">>}),
  R("rdfs7", {"p", "q", "x", "y"}, {},
    <<<<"p", "rdfs:subPropertyOf", "q">>, <<"x", "p", "y">>>>,
    <<>>,
    {<<"x", "q", "y">>}),
  R("rdfs8", {"c"}, {},
    <<<<"c", "rdf:type", "rdfs:Class">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "rdfs:Resource">>}),
  R("rdfs9", {"c", "d", "x"}, {},
    <<<<"c", "rdfs:subClassOf", "d">>, <<"x", "rdf:type", "c">>>>,
    <<>>,
    {<<"x", "rdf:type", "d">>}),
  R("rdfs10", {"c"}, {},
    <<<<"c", "rdf:type", "rdfs:Class">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "c">>}),
  R("rdfs11", {"c", "d", "e"}, {},
    <<<<"c", "rdfs:subClassOf", "d">>, <<"d", "rdfs:subClassOf", "e">>>>,
    <<>>,
    {<<"c", "rdfs:subClassOf", "e">>}),
  R("rdfs12", {"p"}, {},
    <<<<"p", "rdf:type", "rdfs:ContainerMembershipProperty">>>>,
    <<>>,
    {<<"p", "rdfs:subPropertyOf", "rdfs:member">>}),
  R("rdfs13", {"d"}, {},
    <<<<"d", "rdf:type", "rdfs:Datatype">>>>,
    <<>>,
    {<<"d", "rdfs:subClassOf", "rdfs:Literal">>}),
  R("self1", {"z", "p", "y"}, {},
    <<<<"z", "owl:hasSelf", "\"true\"^^xsd:boolean">>, <<"z", "owl:onProperty", "p">>, <<"y", "rdf:type", "z">>>>,
    <<>>,
    {<<"y", "p", "y">>}),
  R("self2", {"z", "p", "y"}, {},
    <<<<"z", "owl:hasSelf", "\"true\"^^xsd:boolean">>, <<"z", "owl:onProperty", "p">>, <<"y", "p", "y">>>>,
    <<>>,
    {<<"y", "rdf:type", "z">>}),
  V("eq-diff1", {"x", "y"}, {},
    <<<<"x", "owl:sameAs", "y">>, <<"x", "owl:differentFrom", "y">>>>,
    <<>>,
    <<"x", "y">>),
  V("eq-diff2", {"x", "e1", "e2"}, {"l", "l2"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:members", "l">>, <<"e1", "owl:sameAs", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e2">>),
  V("eq-diff3", {"x", "e1", "e2"}, {"l", "l2"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:distinctMembers", "l">>, <<"e1", "owl:sameAs", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e2">>),
  V("eq-diff2", {"x", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:members", "l">>, <<"e1", "owl:sameAs", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e2">>),
  V("eq-diff3", {"x", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:distinctMembers", "l">>, <<"e1", "owl:sameAs", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e2">>),
  V("eq-diff2", {"x", "e1", "e3", "e2"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:members", "l">>, <<"e1", "owl:sameAs", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e3">>),
  V("eq-diff3", {"x", "e1", "e3", "e2"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:distinctMembers", "l">>, <<"e1", "owl:sameAs", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e1", "e3">>),
  V("eq-diff2", {"x", "e2", "e3", "e1"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:members", "l">>, <<"e2", "owl:sameAs", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e2", "e3">>),
  V("eq-diff3", {"x", "e2", "e3", "e1"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDifferent">>, <<"x", "owl:distinctMembers", "l">>, <<"e2", "owl:sameAs", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"e2", "e3">>),
  V("prp-irp", {"p", "x"}, {},
    <<<<"p", "rdf:type", "owl:IrreflexiveProperty">>, <<"x", "p", "x">>>>,
    <<>>,
    <<"x", "p">>),
  V("prp-asyp", {"p", "x", "y"}, {},
    <<<<"p", "rdf:type", "owl:AsymmetricProperty">>, <<"x", "p", "y">>, <<"y", "p", "x">>>>,
    <<>>,
    <<"p", "x", "y">>),
  V("prp-pdw", {"p", "q", "x", "y"}, {},
    <<<<"p", "owl:propertyDisjointWith", "q">>, <<"x", "p", "y">>, <<"x", "q", "y">>>>,
    <<>>,
    <<"p", "q", "x", "y">>),
  V("prp-adp", {"z", "x", "e1", "y", "e2"}, {"l", "l2"},
    <<<<"z", "rdf:type", "owl:AllDisjointProperties">>, <<"z", "owl:members", "l">>, <<"x", "e1", "y">>, <<"x", "e2", "y">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    <<"x", "y", "e1", "e2">>),
  V("cax-adc", {"x", "z", "e1", "e2"}, {"l", "l2"},
    <<<<"x", "rdf:type", "owl:AllDisjointClasses">>, <<"x", "owl:members", "l">>, <<"z", "rdf:type", "e1">>, <<"z", "rdf:type", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "rdf:nil">>>>,
    <<"z", "e1", "e2">>),
  V("prp-adp", {"z", "x", "e1", "y", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"z", "rdf:type", "owl:AllDisjointProperties">>, <<"z", "owl:members", "l">>, <<"x", "e1", "y">>, <<"x", "e2", "y">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"x", "y", "e1", "e2">>),
  V("cax-adc", {"x", "z", "e1", "e2", "e3"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDisjointClasses">>, <<"x", "owl:members", "l">>, <<"z", "rdf:type", "e1">>, <<"z", "rdf:type", "e2">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"z", "e1", "e2">>),
  V("prp-adp", {"z", "x", "e1", "y", "e3", "e2"}, {"l", "l2", "l3"},
    <<<<"z", "rdf:type", "owl:AllDisjointProperties">>, <<"z", "owl:members", "l">>, <<"x", "e1", "y">>, <<"x", "e3", "y">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"x", "y", "e1", "e3">>),
  V("cax-adc", {"x", "z", "e1", "e3", "e2"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDisjointClasses">>, <<"x", "owl:members", "l">>, <<"z", "rdf:type", "e1">>, <<"z", "rdf:type", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"z", "e1", "e3">>),
  V("prp-adp", {"z", "x", "e2", "y", "e3", "e1"}, {"l", "l2", "l3"},
    <<<<"z", "rdf:type", "owl:AllDisjointProperties">>, <<"z", "owl:members", "l">>, <<"x", "e2", "y">>, <<"x", "e3", "y">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"x", "y", "e2", "e3">>),
  V("cax-adc", {"x", "z", "e2", "e3", "e1"}, {"l", "l2", "l3"},
    <<<<"x", "rdf:type", "owl:AllDisjointClasses">>, <<"x", "owl:members", "l">>, <<"z", "rdf:type", "e2">>, <<"z", "rdf:type", "e3">>>>,
    <<<<"l", "rdf:first", "e1">>, <<"l", "rdf:rest", "l2">>, <<"l2", "rdf:first", "e2">>, <<"l2", "rdf:rest", "l3">>, <<"l3", "rdf:first", "e3">>, <<"l3", "rdf:rest", "rdf:nil">>>>,
    <<"z", "e2", "e3">>),
  V("prp-npa1", {"x", "i", "p", "j"}, {},
    <<<<"x", "owl:sourceIndividual", "i">>, <<"x", "owl:assertionProperty", "p">>, <<"x", "owl:targetIndividual", "j">>, <<"i", "p", "j">>>>,
    <<>>,
    <<"i", "p", "j">>),
  V("prp-npa2", {"x", "i", "p", "j"}, {},
    <<<<"x", "owl:sourceIndividual", "i">>, <<"x", "owl:assertionProperty", "p">>, <<"x", "owl:targetValue", "j">>, <<"i", "p", "j">>>>,
    <<>>,
    <<"i", "p", "j">>),
  V("cls-nothing2", {"x"}, {},
    <<<<"x", "rdf:type", "owl:Nothing">>>>,
    <<>>,
    <<"x">>),
  V("cls-com", {"c", "d", "x"}, {},
    <<<<"c", "owl:complementOf", "d">>, <<"x", "rdf:type", "c">>, <<"x", "rdf:type", "d">>>>,
    <<>>,
    <<"c", "d", "x">>),
  V("cls-maxc1", {"x", "p", "u", "y"}, {},
    <<<<"x", "owl:maxCardinality", "\"0\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y">>>>,
    <<>>,
    <<"x", "y">>),
  V("cls-maxqc1", {"x", "p", "c", "u", "y"}, {},
    <<<<"x", "owl:maxQualifiedCardinality", "\"0\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"x", "owl:onClass", "c">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y">>, <<"y", "rdf:type", "c">>>>,
    <<>>,
    <<"x", "c", "y">>),
  V("cls-maxqc2", {"x", "p", "u", "y"}, {},
    <<<<"x", "owl:maxQualifiedCardinality", "\"0\"^^xsd:nonNegativeInteger">>, <<"x", "owl:onProperty", "p">>, <<"x", "owl:onClass", "owl:Thing">>, <<"u", "rdf:type", "x">>, <<"u", "p", "y">>>>,
    <<>>,
    <<"x", "y">>),
  V("cax-dw", {"c", "d", "x"}, {},
    <<<<"c", "owl:disjointWith", "d">>, <<"x", "rdf:type", "c">>, <<"x", "rdf:type", "d">>>>,
    <<>>,
    <<"c", "d", "x">>)
>>
=============================================================================
