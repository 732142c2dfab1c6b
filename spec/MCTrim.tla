------------------------------- MODULE MCTrim -------------------------------
(***************************************************************************)
(* Properties of the documented trimming, over every graph of at most K    *)
(* triples of a small vocabulary, and the one-triple graphs as inputs for  *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS Trim, Json, IOUtils
CONSTANT K
Subj == {"x:A", "x:p", "_:b", "owl:Thing", "owl:Nothing", "rdfs:Resource", "owl:Class", "rdfs:Class", "rdfs:Datatype", "owl:DataRange", "xsd:integer", "xsd:int",
         "xsd:string", "owl:rational", "rdfs:label", "owl:versionInfo", "owl:AnnotationProperty"}
Pred == {"rdf:type", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:sameAs", "owl:equivalentClass", "owl:equivalentProperty", "owl:disjointWith",
         "owl:differentFrom", "rdfs:range", "x:p"}
Obj  == Subj \cup {"\"7\"^^xsd:int", "\"l\""}
AllT == Subj \X Pred \X Obj
VARIABLES g, emitted
vars == <<g, emitted>>
Init == g = {} /\ emitted = FALSE
\* (graphs of two or three triples only over the triples that trimming looks at or that make a datatype used)
Near == {t \in AllT : t[1] \in {"x:A", "xsd:int", "xsd:string", "owl:Thing"} /\ t[3] \in {"x:A", "xsd:int", "xsd:string", "rdfs:Datatype", "rdfs:Resource"}
                      /\ t[2] \in {"rdf:type", "rdfs:subClassOf", "owl:disjointWith", "x:p"}}
Add == /\ Cardinality(g) < K
       /\ \E t \in (IF g = {} THEN AllT ELSE Near) : g' = g \cup {t}
       /\ g \subseteq Near
       /\ UNCHANGED emitted
Next == Add
Spec == Init /\ [][Next]_vars
\* nothing is added, a second trimming can only see less use of datatypes
Shrinks == Trimmed(g, g) \subseteq g
Stable  == Trimmed(Trimmed(g, g), g) = Trimmed(g, g)
\* a triple goes or stays on its own merits once it is known which datatypes are used
Local   == \A t \in g : t \in Trimmed(g, g) <=> t \in Trimmed({t}, g)
\* the use of a datatype only ever saves triples
Saves   == [][Trimmed(g, g) \subseteq Trimmed(g', g')]_vars
\* no assertion about the user's own resources goes, except trivial ones
Own == \A t \in g \ Trimmed(g, g) :
         \/ t[1] = t[3]
         \/ t[3] \in {"owl:Thing", "rdfs:Resource"}
         \/ t[1] \in TrimDatatypes \cup {"owl:Nothing", "owl:Thing", "rdfs:Resource"} \cup AnnotationProperties
         \/ t[3] \in TrimDatatypes
Triples == Cardinality(g) = 1 => PrintT("TRIPLE " \o ToJson(CHOOSE t \in g : TRUE))
=============================================================================
