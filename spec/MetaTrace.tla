----------------------------- MODULE MetaTrace ------------------------------
(***************************************************************************)
(* Relations between expansions of related graphs.  A case has the result  *)
(* of a base run and the results of related runs; each related run says    *)
(* how it is related:                                                      *)
(*   same    another order, grouping or hashing of the same input          *)
(*   rename  the input with resources and blank nodes renamed by ren       *)
(*   again   the base result expanded once more                            *)
(*   more    an input that contains the base input                         *)
(* The relations are consequences of Closure(inp) being a least fixpoint   *)
(* (MCClosure checks that for the rules of the specification).             *)
(***************************************************************************)
EXTENDS Naturals, Datatypes, SequencesExt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r
Case == Cases[c]
Base == ToSet(Case.base)
Run  == Case.runs[r]
Ren(x) == IF x \in DOMAIN Run.ren THEN Run.ren[x] ELSE x
Wanted == CASE Run.rel = "rename" -> {<<Ren(t[1]), Ren(t[2]), Ren(t[3])>> : t \in Base}
            [] OTHER -> Base
\* What is known about datatypes is gathered once, at the start of an expansion:
\* a second expansion may know more about what only the first one typed.
DTs == OwlSupported \cup {"owl:rational"}
Datatyped(t) == \/ t[2] = "owl:disjointWith" /\ t[1] \in DTs /\ t[3] \in DTs
                \/ t[2] = "rdf:type" /\ t[3] \in DTs
Verdict ==
  LET out == ToSet(Run.out)
      W   == TLCEval(Wanted)
  IN  [case |-> Case.id \o "/" \o ToString(r), rel |-> Run.rel, missing |-> W \ out, extra |-> IF Run.rel = "more" THEN {}
              ELSE IF Run.rel = "again" THEN {t \in out \ W : ~Datatyped(t)} ELSE out \ W]
Init == c \in 1..Len(Cases) /\ r = 1
Next == /\ r <= Len(Case.runs)
        /\ PrintT("VERDICT " \o ToJson(Verdict))
        /\ r' = r + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, r>>
=============================================================================
