----------------------------- MODULE MCClosure ------------------------------
(***************************************************************************)
(* Forward chaining as a nondeterministic process: in every step some of   *)
(* the rules are applied to the graph as it stands (one rule, or all rules *)
(* but one, or all of them, which is a cycle of the engine).  For every    *)
(* input over a small pool of triples:                                     *)
(*   Confluent   wherever no rule adds anything, the graph is the least    *)
(*               fixpoint of the input, whatever was applied when          *)
(*   Below       on the way there the graph never exceeds it               *)
(*   Monotone    the fixpoint contains the fixpoints of smaller inputs     *)
(*   Idempotent  the fixpoint of the fixpoint is the fixpoint              *)
(*   Bounded     the fixpoint has no term that the input, the rules and    *)
(*               the rules' vocabulary do not have (so chaining ends)      *)
(***************************************************************************)
EXTENDS RuleSets, Json, IOUtils

Deep == IOEnv.DEPTH = "1"
\* groups of triples that interact
Pools == <<
  {<<"x:A", "rdfs:subClassOf", "x:B">>, <<"x:B", "rdfs:subClassOf", "x:A">>, <<"x:i", "rdf:type", "x:A">>, <<"x:A", "owl:sameAs", "x:C">>,
   <<"x:B", "owl:equivalentClass", "x:D">>},
  {<<"x:p", "rdf:type", "owl:FunctionalProperty">>, <<"x:i", "x:p", "x:a">>, <<"x:i", "x:q", "x:b">>, <<"x:q", "rdfs:subPropertyOf", "x:p">>,
   <<"x:a", "x:q", "x:i">>},
  {<<"x:p", "owl:inverseOf", "x:q">>, <<"x:q", "rdf:type", "owl:TransitiveProperty">>, <<"x:a", "x:p", "x:b">>, <<"x:b", "x:p", "x:a">>,
   <<"x:p", "rdfs:domain", "x:C">>},
  {<<"_:r", "owl:onProperty", "x:p">>, <<"_:r", "owl:someValuesFrom", "x:C">>, <<"_:r", "rdfs:subClassOf", "x:C">>, <<"x:a", "x:p", "x:b">>,
   <<"x:b", "rdf:type", "x:C">>, <<"x:b", "x:p", "x:a">>},
  {<<"x:p", "owl:propertyChainAxiom", "_:l1">>, <<"x:a", "x:p", "x:b">>, <<"x:b", "x:p", "x:c">>, <<"x:p", "owl:sameAs", "x:q">>, <<"x:c", "x:q", "x:a">>},
  {<<"_:r", "owl:onProperty", "x:p">>, <<"_:r", "owl:hasValue", "x:v">>, <<"x:i", "rdf:type", "_:r">>, <<"x:p", "rdfs:range", "_:r">>, <<"x:v", "owl:sameAs", "x:w">>}
>>
Always(k) == IF k = 5 THEN {<<"_:l1", "rdf:first", "x:p">>, <<"_:l1", "rdf:rest", "_:l2">>, <<"_:l2", "rdf:first", "x:p">>, <<"_:l2", "rdf:rest", "rdf:nil">>} ELSE {}
SemRules == <<OwlRules \ {"prp-ap", "cls-thing", "cls-nothing1"}, RdfsRules, (OwlRules \ {"prp-ap", "cls-thing", "cls-nothing1"}) \cup RdfsRules>>

NoLits == [l \in {} |-> [t |-> l, num |-> "-"]]
K(g) == MkK(g, NoLits)
RECURSIVE Lfp(_, _)
Lfp(R, g) == LET new == TLCEval(Step(R, K(g))) IN IF new \subseteq g THEN g ELSE Lfp(R, g \cup new)

VARIABLES pool, sem, inp, fix, g, k
vars == <<pool, sem, inp, fix, g, k>>
R == SemRules[sem]
Init == /\ pool \in 1..Len(Pools) /\ sem \in (IF Deep THEN 1..3 ELSE 1..2)
        /\ inp \in {Always(pool) \cup s : s \in (IF Deep THEN SUBSET Pools[pool] ELSE {Pools[pool] \ t : t \in {{}} \cup {{y} : y \in Pools[pool]}})}
        /\ fix = Lfp(SemRules[sem], inp) /\ g = inp /\ k = 0
\* which rules are applied in a step
Groups == {{"eq-ref", "eq-sym", "eq-trans"}, {"eq-rep-s"}, {"eq-rep-p"}, {"eq-rep-o"}, PrpRules, ClsRules, CaxRules \cup {"rdfs9", "rdfs2", "rdfs3", "rdfs7"}, ScmRules,
           RdfsRules \ {"rdfs9", "rdfs2", "rdfs3", "rdfs7"}}
Schedules == {x \cap R : x \in Groups} \cup {R}
Apply(S) == LET new == g \cup Storable(K(g), Step(S, K(g))) IN new # g /\ g' = new
Next == /\ \E S \in Schedules : Apply(S)
        /\ k' = 0
        /\ UNCHANGED <<pool, sem, inp, fix>>
Spec == Init /\ [][Next]_vars

Done == Step(R, K(g)) \subseteq g
Below     == g \subseteq fix
Confluent == Done => g = fix
AtStart   == g = inp
Idempotent == AtStart => Lfp(R, fix) = fix
Monotone   == AtStart => \A t \in inp \ Always(pool) : Lfp(R, inp \ {t}) \subseteq fix
TermsIn(s) == UNION {{t[1], t[2], t[3]} : t \in s}
Vocabulary == {"owl:sameAs", "rdf:type", "rdf:Property", "rdfs:Resource", "rdfs:Class", "owl:Class", "owl:Thing", "owl:Nothing", "rdfs:subClassOf",
               "rdfs:subPropertyOf", "owl:equivalentClass", "owl:equivalentProperty", "rdfs:Literal", "rdfs:Datatype", "rdfs:member", "rdfs:domain", "rdfs:range"}
Bounded    == AtStart => TermsIn(fix) \subseteq TermsIn(inp) \cup Vocabulary
=============================================================================
