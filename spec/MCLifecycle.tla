---------------------------- MODULE MCLifecycle -----------------------------
(***************************************************************************)
(* Every program of a family, run in every order of the calls in a cycle:  *)
(* the contract of the hooks has the properties that users rely on.  Also  *)
(* emits the programs, to be run as subclasses of the implementation.      *)
(* Families:                                                               *)
(*   hooks  every hook stores nothing, A, B or L1; a rule copies A to B    *)
(*   one    every single rule over A, B, C, L1 and the first cycles        *)
(*   two    every pair of rules of a smaller set                           *)
(*   errors every hook reports nothing or one of two messages              *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils
CONSTANT Families
VARIABLES P, fam, S
vars == <<P, fam, S>>
Tokens == {"A", "B", "C"}
H(s, m) == [store |-> s, msgs |-> m]
None == H(<<>>, <<>>)
Whens == {<<"any", 0>>, <<"eq", 1>>, <<"eq", 2>>, <<"eq", 3>>, <<"ge", 2>>}
R(on, w, needs, store, msg) == [on |-> on, when |-> w[1], k |-> w[2], needs |-> needs, store |-> store, msg |-> msg]
Rules1 == {R(on, w, ne, st, "-") : on \in {"*", "A", "B"}, w \in Whens, ne \in {"-", "A", "B"}, st \in {"A", "B", "C", "L1"}}
Rules2 == {R(on, w, "-", st, "-") : on \in {"*", "A", "B"}, w \in {<<"any", 0>>, <<"eq", 2>>, <<"ge", 3>>}, st \in {"B", "C"}}
          \cup {R("*", <<"any", 0>>, ne, st, "-") : ne \in {"B", "C"}, st \in {"A", "B", "C", "D"}}
Prog(hs, rs, a, d, inp) == [pre |-> hs[1], axioms |-> hs[2], daxioms |-> hs[3], one |-> hs[4], post |-> hs[5], rules |-> rs, ax |-> a, dax |-> d, input |-> inp]
Stores == {None, H(<<"A">>, <<>>), H(<<"B">>, <<>>), H(<<"L1">>, <<>>)}
Msgs   == {None, H(<<>>, <<"m1">>), H(<<>>, <<"m2">>)}
NoHook == <<None, None, None, None, None>>
Copy == R("A", <<"any", 0>>, "-", "B", "-")
Init ==
  /\ fam \in Families
  /\ \/ fam = "hooks" /\ \E hs \in [1..5 -> Stores] : \E a, d \in BOOLEAN : P = Prog(hs, <<Copy>>, a, d, {"Z"})
     \/ fam = "errors" /\ \E hs \in [1..5 -> Msgs] : \E a, d \in BOOLEAN : \E w \in {<<"any", 0>>, <<"eq", 1>>, <<"eq", 2>>} :
          P = Prog(hs, <<R("*", w, "-", "-", "m1"), R("Z", <<"eq", 1>>, "-", "A", "-")>>, a, d, {"Z"})
     \/ fam = "one" /\ \E r \in Rules1 : \E a \in BOOLEAN : P = Prog([NoHook EXCEPT ![2] = H(<<"B">>, <<>>)], <<r>>, a, FALSE, {"A", "Z"})
     \/ fam = "two" /\ \E r, q \in Rules2 : P = Prog(NoHook, <<r, q, R("C", <<"any", 0>>, "-", "E", "m1")>>, FALSE, FALSE, {"A"})
  /\ S = Start(P.input)
Next ==
  /\ S.phase # "done" /\ UNCHANGED <<P, fam>>
  /\ \/ CanPre(S, P)  /\ S' = DoPre(S, P)
     \/ CanAx(S, P)   /\ S' = DoAx(S, P)
     \/ CanDax(S, P)  /\ S' = DoDax(S, P)
     \/ CanOne(S, P)  /\ S' = DoOne(S, P)
     \/ CanCycle(S, P) /\ S' = BeginCycle(S)
     \/ \E t \in S.g \ S.seen : CanRule(S, t) /\ S' = DoRule(S, P, t)
     \/ CanPost(S, P) /\ S' = DoPost(S, P)
     \/ S.phase = "post" /\ S' = Emit(S)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the input is only ever added to; literals are never properties
Keeps    == P.input \subseteq S.g
NoLit    == (S.g \cup S.pend) \cap LitPred = {}
\* nothing appears while the rules of a cycle run
Snapshot == [][S.phase = "rules" /\ S'.phase = "rules" /\ S'.n = S.n => S'.g = S.g]_vars
\* every cycle but the last adds something, so there are few
Bounded  == S.n <= 8
Grows    == [][S'.n > S.n /\ S.n > 0 => S.g \subseteq S'.g /\ S.g # S'.g]_vars
\* at the end the graph is closed under the rules of every late cycle
Closed   == S.phase = "post" =>
              \A i \in DOMAIN P.rules : \A t \in S.seen :
                LET r == P.rules[i] IN
                (r.when = "any" /\ r.on \in {"*", t} /\ r.needs \in S.seen \cup {"-"} /\ r.store \notin LitPred \cup {"-"}) => r.store \in S.g
Requested == /\ S.phase = "axioms" => P.ax
             /\ S.phase = "daxioms" => P.dax
\* the outcome does not depend on the order of the calls in a cycle: it is a function of the program
Ordered(T, g0) == LET RECURSIVE Run(_, _)
                      Run(X, left) == IF left = {} THEN X ELSE LET t == CHOOSE t \in left : TRUE IN Run(DoRule(X, P, t), left \ {t})
                  IN Run(T, g0)
RECURSIVE Cycles(_)
Cycles(T) == LET X == Ordered(T, T.g) IN IF X.pend = {} THEN X ELSE Cycles(BeginCycle(X))
Outcome == LET a == DoPre(Start(P.input), P)
               b == IF P.ax THEN DoAx(a, P) ELSE a
               c == IF P.dax THEN DoDax(b, P) ELSE b
           IN  Emit(DoPost(Cycles(BeginCycle(DoOne(c, P))), P))
Confluent == S.phase = "done" => S.g = Outcome.g /\ S.errs = Outcome.errs
Ends == <>(S.phase = "done")
Programs == S.phase = "new" => PrintT("PROGRAM " \o ToJson(P))
=============================================================================
