------------------------------ MODULE RuleSets ------------------------------
(***************************************************************************)
(* The entailment rules: OWL 2 RL (W3C OWL 2 Profiles, Tables 4, 5, 6, 7   *)
(* and 9), RDFS (RDF Semantics: rdf1, rdfs2 .. rdfs13) and the hasSelf     *)
(* extension.  Concl(r, K) is the set of conclusions of rule r on K.       *)
(* Instances of the eq-rep rules for x sameAs x conclude their own         *)
(* premises and are left out.                                              *)
(***************************************************************************)
EXTENDS RDFGraph

EqRules  == {"eq-ref", "eq-sym", "eq-trans", "eq-rep-s", "eq-rep-p", "eq-rep-o"}
PrpRules == {"prp-dom", "prp-rng", "prp-fp", "prp-ifp", "prp-symp", "prp-trp", "prp-spo1",
             "prp-spo2", "prp-eqp1", "prp-eqp2", "prp-inv1", "prp-inv2", "prp-key"}
ClsRules == {"cls-thing", "cls-nothing1", "cls-int1", "cls-int2", "cls-uni", "cls-svf1", "cls-svf2",
             "cls-avf", "cls-hv1", "cls-hv2", "cls-maxc2", "cls-maxqc3", "cls-maxqc4", "cls-oo"}
CaxRules == {"cax-sco", "cax-eqc1", "cax-eqc2"}
ScmRules == {"scm-cls", "scm-sco", "scm-eqc1", "scm-eqc2", "scm-op", "scm-dp", "scm-spo", "scm-eqp1",
             "scm-eqp2", "scm-dom1", "scm-dom2", "scm-rng1", "scm-rng2", "scm-hv", "scm-svf1",
             "scm-svf2", "scm-avf1", "scm-avf2", "scm-int", "scm-uni"}
\* the implementation declares the annotation properties and the reflexivity of rdf:Property too
OwlExtraRules == {"prp-ap", "scm-prop"}
OwlRules  == EqRules \cup PrpRules \cup ClsRules \cup CaxRules \cup ScmRules \cup OwlExtraRules
RdfsRules == {"rdf1", "rdfs2", "rdfs3", "rdfs4a", "rdfs4b", "rdfs5", "rdfs6", "rdfs7", "rdfs8",
              "rdfs9", "rdfs10", "rdfs11", "rdfs12", "rdfs13"}
ExtRules  == {"self1", "self2"}

AnnotationProperties ==
  {"rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:deprecated",
   "owl:versionInfo", "owl:priorVersion", "owl:backwardCompatibleWith", "owl:incompatibleWith"}

NonTrivial(R) == {x \in R : x[1] # x[2]}

\* x -> {y : <<x, y>> \in R}
Succ(R) == LET D == {x[1] : x \in R} IN [d \in D |-> {y[2] : y \in {x \in R : x[1] = d}}]

\* {<<x[1], z>> : x \in A, <<x[2], z>> \in B}
Join(A, B) ==
  LET mids == {x[2] : x \in A}
      S    == TLCEval(Succ({y \in B : y[1] \in mids}))
  IN  UNION {{<<x[1], z>> : z \in S[x[2]]} : x \in {y \in A : y[2] \in DOMAIN S}}

Tr(R, p) == {<<x[1], p, x[2]>> : x \in R}
Ty(M, c) == {<<x, "rdf:type", c>> : x \in M}
Inv(R)   == {<<x[2], x[1]>> : x \in R}

\* <<restriction, property, filler>> for a restriction with the given filler predicate
Restr(K, q) == UNION {{<<x[1], p, x[2]>> : p \in Obj(K, x[1], "owl:onProperty")} : x \in P(K, q)}

\* values that u, v share through a property
OtherValues(R, V) ==
  UNION {{<<x[2], y[2]>> : y \in {z \in R : z[1] = x[1] /\ z[2] \in V}} : x \in {z \in R : z[2] \in V}}
SubjIn(R, M) == {x \in R : x[1] \in M}
Objs(R) == {x[2] : x \in R}
Subs(R) == {x[1] : x \in R}

\* <<restriction c, property p, qualifier q>> with a maxQualifiedCardinality n
MaxQ(K, n) ==
  UNION {UNION {{<<x[1], p, q>> : q \in Obj(K, x[1], "owl:onClass")} : p \in Obj(K, x[1], "owl:onProperty")} :
         x \in {y \in P(K, "owl:maxQualifiedCardinality") : Num(K, y[2]) = n}}
MaxC(K, n) ==
  UNION {{<<x[1], p>> : p \in Obj(K, x[1], "owl:onProperty")} :
         x \in {y \in P(K, "owl:maxCardinality") : Num(K, y[2]) = n}}

Concl(r, K) ==
  CASE r = "eq-ref"   -> {<<x, "owl:sameAs", x>> : x \in Terms(K.g)}
    [] r = "eq-sym"   -> Tr(Inv(P(K, "owl:sameAs")), "owl:sameAs")
    [] r = "eq-trans" -> LET N == NonTrivial(P(K, "owl:sameAs")) IN Tr(Join(N, N), "owl:sameAs")
    [] r = "eq-rep-s" -> LET S == TLCEval(Succ(NonTrivial(P(K, "owl:sameAs")))) D == DOMAIN S
                         IN  UNION {{<<y, t[2], t[3]>> : y \in S[t[1]]} : t \in {u \in K.g : u[1] \in D}}
    [] r = "eq-rep-p" -> LET S == TLCEval(Succ(NonTrivial(P(K, "owl:sameAs")))) D == DOMAIN S
                         IN  UNION {{<<t[1], y, t[3]>> : y \in S[t[2]]} : t \in {u \in K.g : u[2] \in D}}
    [] r = "eq-rep-o" -> LET S == TLCEval(Succ(NonTrivial(P(K, "owl:sameAs")))) D == DOMAIN S
                         IN  UNION {{<<t[1], t[2], y>> : y \in S[t[3]]} : t \in {u \in K.g : u[3] \in D}}
    \* ------------------------------------------------ Table 5: properties
    [] r = "prp-ap"   -> Ty(AnnotationProperties, "owl:AnnotationProperty")
    [] r = "prp-dom"  -> UNION {Ty(Subs(P(K, x[1])), x[2]) : x \in P(K, "rdfs:domain")}
    [] r = "prp-rng"  -> UNION {Ty(Objs(P(K, x[1])), x[2]) : x \in P(K, "rdfs:range")}
    [] r = "prp-fp"   -> UNION {LET R == P(K, p) IN Tr(OtherValues(R, Objs(R)), "owl:sameAs")
                                : p \in Mem(K, "owl:FunctionalProperty")}
    [] r = "prp-ifp"  -> UNION {LET R == Inv(P(K, p)) IN Tr(OtherValues(R, Objs(R)), "owl:sameAs")
                                : p \in Mem(K, "owl:InverseFunctionalProperty")}
    [] r = "prp-symp" -> UNION {Tr(Inv(P(K, p)), p) : p \in Mem(K, "owl:SymmetricProperty")}
    [] r = "prp-trp"  -> UNION {Tr(Join(P(K, p), P(K, p)), p) : p \in Mem(K, "owl:TransitiveProperty")}
    [] r = "prp-spo1" -> UNION {Tr(P(K, x[1]), x[2]) : x \in NonTrivial(P(K, "rdfs:subPropertyOf"))}
    [] r = "prp-spo2" -> UNION {Tr(Chain(K, x[2]), x[1]) : x \in P(K, "owl:propertyChainAxiom")}
    [] r = "prp-eqp1" -> UNION {Tr(P(K, x[1]), x[2]) : x \in NonTrivial(P(K, "owl:equivalentProperty"))}
    [] r = "prp-eqp2" -> UNION {Tr(P(K, x[2]), x[1]) : x \in NonTrivial(P(K, "owl:equivalentProperty"))}
    [] r = "prp-inv1" -> UNION {Tr(Inv(P(K, x[1])), x[2]) : x \in P(K, "owl:inverseOf")}
    [] r = "prp-inv2" -> UNION {Tr(Inv(P(K, x[2])), x[1]) : x \in P(K, "owl:inverseOf")}
    [] r = "prp-key"  -> UNION {Tr(Share(K, x[2], Mem(K, x[1])), "owl:sameAs") : x \in P(K, "owl:hasKey")}
    \* --------------------------------------------------- Table 6: classes
    [] r = "cls-thing"    -> {<<"owl:Thing", "rdf:type", "owl:Class">>}
    [] r = "cls-nothing1" -> {<<"owl:Nothing", "rdf:type", "owl:Class">>}
    [] r = "cls-int1" -> UNION {Ty(Meet(K, x[2]), x[1]) : x \in P(K, "owl:intersectionOf")}
    [] r = "cls-int2" -> UNION {UNION {Ty(Mem(K, x[1]), c) : c \in Items(K, x[2])} : x \in P(K, "owl:intersectionOf")}
    [] r = "cls-uni"  -> UNION {UNION {Ty(Mem(K, c), x[1]) : c \in Items(K, x[2])} : x \in P(K, "owl:unionOf")}
    [] r = "cls-svf1" -> UNION {Ty({u[1] : u \in {w \in P(K, x[2]) : w[2] \in Mem(K, x[3])}}, x[1])
                                : x \in Restr(K, "owl:someValuesFrom")}
    [] r = "cls-svf2" -> UNION {Ty(Subs(P(K, x[2])), x[1])
                                : x \in {y \in Restr(K, "owl:someValuesFrom") : y[3] = "owl:Thing"}}
    [] r = "cls-avf"  -> UNION {Ty(Objs(SubjIn(P(K, x[2]), Mem(K, x[1]))), x[3])
                                : x \in Restr(K, "owl:allValuesFrom")}
    [] r = "cls-hv1"  -> UNION {{<<u, x[2], x[3]>> : u \in Mem(K, x[1])} : x \in Restr(K, "owl:hasValue")}
    [] r = "cls-hv2"  -> UNION {Ty(Sub(K, x[2], x[3]), x[1]) : x \in Restr(K, "owl:hasValue")}
    [] r = "cls-maxc2" -> UNION {LET R == SubjIn(P(K, x[2]), Mem(K, x[1])) IN Tr(OtherValues(R, Objs(R)), "owl:sameAs")
                                 : x \in MaxC(K, "1")}
    [] r = "cls-maxqc3" -> UNION {LET R == SubjIn(P(K, x[2]), Mem(K, x[1]))
                                  IN  Tr(OtherValues(R, Mem(K, x[3])), "owl:sameAs") : x \in MaxQ(K, "1")}
    [] r = "cls-maxqc4" -> UNION {LET R == SubjIn(P(K, x[2]), Mem(K, x[1])) IN Tr(OtherValues(R, Objs(R)), "owl:sameAs")
                                  : x \in {y \in MaxQ(K, "1") : y[3] = "owl:Thing"}}
    [] r = "cls-oo"   -> UNION {Ty(Items(K, x[2]), x[1]) : x \in P(K, "owl:oneOf")}
    \* --------------------------------------------- Table 7: class axioms
    [] r = "cax-sco"  -> UNION {Ty(Mem(K, x[1]), x[2]) : x \in NonTrivial(P(K, "rdfs:subClassOf"))}
    [] r = "cax-eqc1" -> UNION {Ty(Mem(K, x[1]), x[2]) : x \in NonTrivial(P(K, "owl:equivalentClass"))}
    [] r = "cax-eqc2" -> UNION {Ty(Mem(K, x[2]), x[1]) : x \in NonTrivial(P(K, "owl:equivalentClass"))}
    \* ----------------------------------------- Table 9: schema vocabulary
    [] r = "scm-cls"  -> UNION {{<<c, "rdfs:subClassOf", c>>, <<c, "owl:equivalentClass", c>>,
                                 <<c, "rdfs:subClassOf", "owl:Thing">>, <<"owl:Nothing", "rdfs:subClassOf", c>>}
                                : c \in Mem(K, "owl:Class")}
    [] r = "scm-sco"  -> LET S == P(K, "rdfs:subClassOf") IN Tr(Join(NonTrivial(S), NonTrivial(S)), "rdfs:subClassOf")
    [] r = "scm-eqc1" -> UNION {{<<x[1], "rdfs:subClassOf", x[2]>>, <<x[2], "rdfs:subClassOf", x[1]>>}
                                : x \in P(K, "owl:equivalentClass")}
    [] r = "scm-eqc2" -> LET S == P(K, "rdfs:subClassOf") IN Tr({x \in S : <<x[2], x[1]>> \in S}, "owl:equivalentClass")
    [] r = "scm-op"   -> UNION {{<<p, "rdfs:subPropertyOf", p>>, <<p, "owl:equivalentProperty", p>>}
                                : p \in Mem(K, "owl:ObjectProperty")}
    [] r = "scm-dp"   -> UNION {{<<p, "rdfs:subPropertyOf", p>>, <<p, "owl:equivalentProperty", p>>}
                                : p \in Mem(K, "owl:DatatypeProperty")}
    [] r = "scm-prop" -> UNION {{<<p, "rdfs:subPropertyOf", p>>, <<p, "owl:equivalentProperty", p>>}
                                : p \in Mem(K, "rdf:Property")}
    [] r = "scm-spo"  -> LET S == NonTrivial(P(K, "rdfs:subPropertyOf")) IN Tr(Join(S, S), "rdfs:subPropertyOf")
    [] r = "scm-eqp1" -> UNION {{<<x[1], "rdfs:subPropertyOf", x[2]>>, <<x[2], "rdfs:subPropertyOf", x[1]>>}
                                : x \in P(K, "owl:equivalentProperty")}
    [] r = "scm-eqp2" -> LET S == P(K, "rdfs:subPropertyOf") IN Tr({x \in S : <<x[2], x[1]>> \in S}, "owl:equivalentProperty")
    [] r = "scm-dom1" -> Tr(Join(P(K, "rdfs:domain"), NonTrivial(P(K, "rdfs:subClassOf"))), "rdfs:domain")
    [] r = "scm-dom2" -> Tr(Join(NonTrivial(P(K, "rdfs:subPropertyOf")), P(K, "rdfs:domain")), "rdfs:domain")
    [] r = "scm-rng1" -> Tr(Join(P(K, "rdfs:range"), NonTrivial(P(K, "rdfs:subClassOf"))), "rdfs:range")
    [] r = "scm-rng2" -> Tr(Join(NonTrivial(P(K, "rdfs:subPropertyOf")), P(K, "rdfs:range")), "rdfs:range")
    [] r = "scm-hv"   -> LET R == Restr(K, "owl:hasValue") IN
                         UNION {{<<x[1], "rdfs:subClassOf", y[1]>> :
                                 y \in {z \in R : z[3] = x[3] /\ Has(K, x[2], "rdfs:subPropertyOf", z[2])}} : x \in R}
    [] r = "scm-svf1" -> LET R == Restr(K, "owl:someValuesFrom") IN
                         UNION {{<<x[1], "rdfs:subClassOf", y[1]>> :
                                 y \in {z \in R : z[2] = x[2] /\ Has(K, x[3], "rdfs:subClassOf", z[3])}} : x \in R}
    [] r = "scm-svf2" -> LET R == Restr(K, "owl:someValuesFrom") IN
                         UNION {{<<x[1], "rdfs:subClassOf", y[1]>> :
                                 y \in {z \in R : z[3] = x[3] /\ Has(K, x[2], "rdfs:subPropertyOf", z[2])}} : x \in R}
    [] r = "scm-avf1" -> LET R == Restr(K, "owl:allValuesFrom") IN
                         UNION {{<<x[1], "rdfs:subClassOf", y[1]>> :
                                 y \in {z \in R : z[2] = x[2] /\ Has(K, x[3], "rdfs:subClassOf", z[3])}} : x \in R}
    [] r = "scm-avf2" -> LET R == Restr(K, "owl:allValuesFrom") IN
                         UNION {{<<y[1], "rdfs:subClassOf", x[1]>> :
                                 y \in {z \in R : z[3] = x[3] /\ Has(K, x[2], "rdfs:subPropertyOf", z[2])}} : x \in R}
    [] r = "scm-int"  -> UNION {{<<x[1], "rdfs:subClassOf", c>> : c \in Items(K, x[2])} : x \in P(K, "owl:intersectionOf")}
    [] r = "scm-uni"  -> UNION {{<<c, "rdfs:subClassOf", x[1]>> : c \in Items(K, x[2])} : x \in P(K, "owl:unionOf")}
    \* ------------------------------------------------------------- RDFS
    [] r = "rdf1"   -> Ty(DOMAIN K.ix, "rdf:Property")
    [] r = "rdfs2"  -> UNION {Ty(Subs(P(K, x[1])), x[2]) : x \in P(K, "rdfs:domain")}
    [] r = "rdfs3"  -> UNION {Ty(Objs(P(K, x[1])), x[2]) : x \in P(K, "rdfs:range")}
    [] r = "rdfs4a" -> Ty({t[1] : t \in K.g}, "rdfs:Resource")
    [] r = "rdfs4b" -> Ty({t[3] : t \in K.g}, "rdfs:Resource")
    [] r = "rdfs5"  -> LET S == NonTrivial(P(K, "rdfs:subPropertyOf")) IN Tr(Join(S, S), "rdfs:subPropertyOf")
    [] r = "rdfs6"  -> {<<p, "rdfs:subPropertyOf", p>> : p \in Mem(K, "rdf:Property")}
    [] r = "rdfs7"  -> UNION {Tr(P(K, x[1]), x[2]) : x \in NonTrivial(P(K, "rdfs:subPropertyOf"))}
    [] r = "rdfs8"  -> {<<c, "rdfs:subClassOf", "rdfs:Resource">> : c \in Mem(K, "rdfs:Class")}
    [] r = "rdfs9"  -> UNION {Ty(Mem(K, x[1]), x[2]) : x \in NonTrivial(P(K, "rdfs:subClassOf"))}
    [] r = "rdfs10" -> {<<c, "rdfs:subClassOf", c>> : c \in Mem(K, "rdfs:Class")}
    [] r = "rdfs11" -> LET S == NonTrivial(P(K, "rdfs:subClassOf")) IN Tr(Join(S, S), "rdfs:subClassOf")
    [] r = "rdfs12" -> {<<p, "rdfs:subPropertyOf", "rdfs:member">> : p \in Mem(K, "rdfs:ContainerMembershipProperty")}
    [] r = "rdfs13" -> {<<d, "rdfs:subClassOf", "rdfs:Literal">> : d \in Mem(K, "rdfs:Datatype")}
    \* --------------------------------------------------- owl:hasSelf
    [] r = "self1" -> UNION {UNION {{<<y, p, y>> : y \in Mem(K, x[1])} : p \in Obj(K, x[1], "owl:onProperty")}
                             : x \in P(K, "owl:hasSelf")}
    [] r = "self2" -> UNION {UNION {Ty({y[1] : y \in {w \in P(K, p) : w[1] = w[2]}}, x[1])
                                    : p \in Obj(K, x[1], "owl:onProperty")} : x \in P(K, "owl:hasSelf")}
    [] OTHER -> Assert(FALSE, <<"no such rule", r>>)

\* a triple with a literal as predicate is not stored
Storable(K, T) == {t \in T : ~IsLit(K, t[2])}
Step(R, K) == Storable(K, UNION {Concl(r, K) : r \in R})
=============================================================================
