---------------------------- MODULE ImportsTrace ----------------------------
(***************************************************************************)
(* Validates recorded interpretations of imports: the documents opened, in *)
(* order, must be a behaviour of Imports, and the final graph must be what *)
(* the final state says.  A document may be opened once before (as source) *)
(* when the graph comes from a document itself.  If imports are not to be  *)
(* interpreted then nothing is loaded and nothing changes.                 *)
(***************************************************************************)
EXTENDS Imports, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, bad
C == Cases[c]
S(x) == {x[k] : k \in DOMAIN x}
Imp == [d \in DOMAIN C.imp |-> S(C.imp[d])]
Init == /\ c \in DOMAIN Cases /\ i = 0 /\ bad = ""
        /\ IInit(Imp)
\* follow the recorded loads; references to loaded documents are dropped at any time
Replay ==
  /\ C.interpret /\ bad = "" /\ i < Len(C.loads) /\ i' = i + 1
  /\ LET d == C.loads[i + 1]
     IN  IF d \in refs /\ d \notin Loaded
         THEN Load(d) /\ bad' = bad
         ELSE bad' = (IF d \in Loaded THEN "loaded again: " ELSE "loaded without being imported: ") \o d /\ UNCHANGED ivars
  /\ UNCHANGED c
Drops ==
  /\ C.interpret /\ bad = "" /\ i = Len(C.loads) /\ \E d \in refs : Drop(d)
  /\ UNCHANGED <<c, i, bad>>
Stuck == ~C.interpret \/ bad # "" \/ (i = Len(C.loads) /\ \A d \in refs : d \notin Loaded)
Content(ds) == UNION {S(C.content[d]) : d \in ds}
Expected ==
  IF C.interpret THEN Content(content) ELSE Content({"root"}) \cup S(C.statements)
Verdict ==
  [case |-> C.id, bad |-> IF ~C.interpret /\ C.loads # <<>> THEN "loaded although imports were not to be interpreted" ELSE bad,
   pending |-> IF C.interpret THEN {d \in refs : d \notin Loaded} ELSE {},
   missing |-> Expected \ S(C.out), extra |-> IF C.exact THEN S(C.out) \ Expected ELSE S(C.out) \cap (S(C.all) \ Expected),
   left |-> IF C.interpret THEN C.left ELSE 0, copies |-> S(C.copies)]
Judge == /\ Stuck /\ i < 1000 /\ i' = 1000 /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ UNCHANGED <<ivars, c, bad>>
Next == i < 1000 /\ (Replay \/ Drops \/ Judge)
Spec == Init /\ [][Next]_<<ivars, c, i, bad>>
=============================================================================
