---------------------------- MODULE RobustTrace ----------------------------
(***************************************************************************)
(* What certainly follows from the good part of a graph (inp) must be in   *)
(* the expansion of the whole graph (out), whatever the rest of it says.   *)
(***************************************************************************)
EXTENDS ClosureTrace
SureCycle ==
  /\ phase = "cycle"
  /\ LET new == Step(RulesOf, MkK(g, Lits))
     IN  IF new \subseteq g THEN phase' = "done" /\ g' = g /\ n' = n
         ELSE phase' = phase /\ g' = g \cup new /\ n' = n + 1
  /\ UNCHANGED <<c, lt>>
RobustVerdict == [case |-> Case.id, size |-> Cardinality(g), missing |-> Visible(g) \ Out]
RobustJudge == /\ phase = "done" /\ phase' = "judged"
               /\ PrintT("VERDICT " \o ToJson(RobustVerdict))
               /\ g' = {} /\ UNCHANGED <<c, n, lt>>
RobustNext == AddAxioms \/ OneTime \/ SureCycle \/ RobustJudge
RobustSpec == Init /\ [][RobustNext]_vars
=============================================================================
