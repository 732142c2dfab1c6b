---------------------------- MODULE MCMalformed ----------------------------
(***************************************************************************)
(* Every structure that a collection of at most NCells cells can have:     *)
(* missing, repeated and literal rdf:first and rdf:rest values, and cells  *)
(* that lead to each other in any way.  A reader of the collection follows *)
(* rdf:rest and remembers where it has been; it always comes to an end,    *)
(* visits nothing twice, and reads exactly the members if the collection   *)
(* is well formed.  Each structure is printed for replay.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
NCells == IF IOEnv.CELLS = "3" THEN 3 ELSE 2
Cells == 1..NCells
CellName(i) == CASE i = 1 -> "c1" [] i = 2 -> "c2" [] i = 3 -> "c3"
FirstChoice == IF NCells = 2 THEN {{}, {"a"}, {"b"}, {"a", "b"}, {"lit"}, {"c1"}} ELSE {{}, {"a"}, {"b"}, {"a", "lit"}}
RestChoice ==
  {{}, {"nil"}, {"lit"}, {"iri"}, {"nil", "c1"}, {"nil", "c2"}, {"c1", "c2"}, {"nil", "lit"}} \cup {{CellName(i)} : i \in Cells}
RestChoice3 == {{}, {"nil"}, {"nil", "c1"}, {"lit"}} \cup {{CellName(i)} : i \in Cells}

VARIABLES first, rest,   \* the structure
          at,            \* the cells to be read next
          seen, items, steps
vars == <<first, rest, at, seen, items, steps>>

Init == /\ first \in [Cells -> FirstChoice]
        /\ rest \in [Cells -> IF NCells = 2 THEN RestChoice ELSE RestChoice3]
        /\ at = {1} /\ seen = {} /\ items = {} /\ steps = 0
Follow(S) == {i \in Cells : CellName(i) \in UNION {rest[j] : j \in S}}
Read == /\ at # {}
        /\ items' = items \cup UNION {first[i] : i \in at}
        /\ seen' = seen \cup at
        /\ at' = Follow(at) \ seen'
        /\ steps' = steps + 1
        /\ UNCHANGED <<first, rest>>
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* well formed: one first (that is not a literal or a cell) and one rest everywhere, down to rdf:nil
RECURSIVE PathOk(_, _)
PathOk(i, been) ==
  /\ i \notin been /\ Cardinality(first[i]) = 1 /\ first[i] \subseteq {"a", "b"} /\ Cardinality(rest[i]) = 1
  /\ \/ rest[i] = {"nil"}
     \/ \E j \in Cells : rest[i] = {CellName(j)} /\ PathOk(j, been \cup {i})
RECURSIVE Members(_)
Members(i) == first[i] \cup UNION {Members(j) : j \in Follow({i})}
WellFormed == PathOk(1, {})

Bounded == steps <= NCells /\ seen \cap at = {}
Exact == at = {} /\ WellFormed => items = Members(1)
Ends == <>(at = {})
Emit == steps = 0 => PrintT("LIST " \o ToJson([first |-> first, rest |-> rest, ok |-> WellFormed]))
=============================================================================
