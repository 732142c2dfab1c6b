------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Validates recorded conversions: every case is a datatype and a batch of *)
(* strings with what the implementation's conversion did with each: the    *)
(* value it returned, or that it raised ValueError, or something else.     *)
(* A state is a case and a position in its batch.                          *)
(***************************************************************************)
EXTENDS Lexical, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i
vars == <<c, i>>

Rec(k) == Cases[c].recs[k]
Agrees(r) ==
  LET j == Judgement(Cases[c].dt, r.s)
  IN  \/ ~j.judged /\ r.out \in {"value", "reject"}
      \/ j.judged /\ ~j.ok /\ r.out = "reject"
      \/ j.judged /\ j.ok /\ r.out = "value" /\ (j.val = <<>> \/ j.val = r.val)
Judged == Cardinality({k \in DOMAIN Cases[c].recs : Judgement(Cases[c].dt, Rec(k).s).judged})
Accept == Cardinality({k \in DOMAIN Cases[c].recs : Judgement(Cases[c].dt, Rec(k).s).ok})

Init == c \in DOMAIN Cases /\ i = 0
Judge == /\ i = 0 /\ i' = Len(Cases[c].recs)
         /\ LET bad == {k \in DOMAIN Cases[c].recs : ~Agrees(Rec(k))}
            IN  PrintT("VERDICT " \o ToJson([case |-> Cases[c].id, bad |-> bad, accept |-> Accept,
                        what |-> [k \in bad |-> Judgement(Cases[c].dt, Rec(k).s)]]))
         /\ UNCHANGED c
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
