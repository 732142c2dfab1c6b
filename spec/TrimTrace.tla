------------------------------ MODULE TrimTrace -----------------------------
(***************************************************************************)
(* Compares an expansion under the trimming semantics with the same        *)
(* expansion under the extended semantics.  A case has the destination's   *)
(* content after each (ext, trim), the triples visible in other graphs     *)
(* (other, which must be the same after both), the error messages of both, *)
(* and the declared restricted datatypes (own).                            *)
(***************************************************************************)
EXTENDS Trim, SequencesExt, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, step
C == Cases[c]
\* what trimming does to the declarations of restricted datatypes is not documented
OwnDT == ToSet(C.own)
Unjudged(t) ==
  \/ Open(t)
  \/ t[1] \in OwnDT /\ t[2] = "rdf:type" /\ t[3] \in {"rdfs:Datatype", "owl:DataRange"}
  \/ t[2] = "owl:disjointWith" /\ {t[1], t[3]} \cap OwnDT # {}
BagOf(s) == [m \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = m})]
Verdict ==
  LET ext   == TLCEval(ToSet(C.ext))
      trim  == TLCEval(ToSet(C.trim))
      known == TLCEval(ext \cup ToSet(C.other))
      want  == TLCEval(Trimmed(ext, known))
  IN  [case |-> C.id,
       lost   |-> {t \in want \ trim : ~Unjudged(t)},
       kept   |-> {t \in (trim \ want) \cap ext : ~Unjudged(t)},
       new    |-> trim \ ext,
       errors |-> BagOf(C.msgs_ext) # BagOf(C.msgs_trim),
       gone   |-> Cardinality(ext \ want)]
Init == c \in DOMAIN Cases /\ step = 0
Next == step = 0 /\ step' = 1 /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, step>>
=============================================================================
