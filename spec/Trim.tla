-------------------------------- MODULE Trim --------------------------------
(***************************************************************************)
(* The documented trimming of an extended closure: which triples are       *)
(* removed, given everything that is known (the whole closure, wherever    *)
(* its triples are).                                                       *)
(***************************************************************************)
EXTENDS Datatypes
AnnotationProperties ==
  {"rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:deprecated", "owl:versionInfo",
   "owl:priorVersion", "owl:backwardCompatibleWith", "owl:incompatibleWith"}
TrimDatatypes == OwlSupported \cup {"owl:rational"}
Reflexive == {"owl:sameAs", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:equivalentClass"}
TopBottom ==
  ({"owl:Nothing", "owl:Thing"} \X {"rdf:type"} \X {"owl:Class", "rdfs:Class"})
  \cup {<<"owl:Thing", "owl:equivalentClass", "rdfs:Resource">>, <<"rdfs:Resource", "owl:equivalentClass", "owl:Thing">>}
\* datatypes that are the type of something
UsedIn(known) == TrimDatatypes \cap {t[3] : t \in {u \in known : u[2] = "rdf:type"}}
Goes(t, unused) ==
  \/ t[1] = t[3] /\ t[2] \in Reflexive
  \/ t[2] = "rdfs:subClassOf" /\ t[3] \in {"owl:Thing", "rdfs:Resource"}
  \/ t[2] = "rdf:type" /\ t[3] = "rdfs:Resource"
  \/ t[1] = "owl:Nothing" /\ t[2] = "rdfs:subClassOf"
  \/ t[1] \in unused /\ t[2] = "rdf:type" /\ t[3] \in {"rdfs:Datatype", "owl:DataRange"}
  \/ t[2] = "owl:disjointWith" /\ {t[1], t[3]} \cap unused # {}
  \/ t[1] \in AnnotationProperties /\ t[2] = "rdf:type" /\ t[3] = "owl:AnnotationProperty"
  \/ t \in TopBottom
Trimmed(g, known) ==
  LET unused == TrimDatatypes \ UsedIn(known) IN {t \in g : ~Goes(t, unused)}
\* Relations between these pairs of classes say nothing in this implementation, or are
\* stated and documented differently in different places; whether they stay is not judged.
Synonyms == {{"owl:Class", "rdfs:Class"}, {"rdfs:Datatype", "owl:DataRange"}, {"owl:DataRange", "owl:DatatypeProperty"}}
Open(t) == {t[1], t[3]} \in Synonyms /\ t[2] \in {"rdfs:subClassOf", "owl:equivalentClass"}
=============================================================================
