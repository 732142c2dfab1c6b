------------------------------ MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life cycle of one expansion, for a semantics whose hooks are given  *)
(* by a program: what each hook stores and reports, and rules of the form  *)
(*   in a cycle admitted by when, called for the triple on (or any), with  *)
(*   the triple needs in the graph: store a triple, report a message.      *)
(* Triples are tokens; the tokens in LitPred stand for triples whose       *)
(* predicate is a literal.  A state is a record                            *)
(*   g     the stored graph          pend  triples stored, not yet added   *)
(*   errs  messages reported so far  n     number of the current cycle     *)
(*   seen  triples that the rules of this cycle have been called for       *)
(*   phase the last hook that was called                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
LitPred == {"L1", "L2"}
Start(input) == [phase |-> "new", g |-> input, pend |-> {}, errs |-> {}, n |-> 0, seen |-> {}]
SeqSet(s) == {s[i] : i \in DOMAIN s}
Store(S, ts) == [S EXCEPT !.pend = @ \cup {t \in ts : t \notin LitPred /\ t \notin S.g}]
Report(S, ms) == [S EXCEPT !.errs = @ \cup ms]
Flush(S) == [S EXCEPT !.g = @ \cup S.pend, !.pend = {}]
Hook(S, name, h) == [Report(Store(S, SeqSet(h.store)), SeqSet(h.msgs)) EXCEPT !.phase = name]

\* the order of the hooks, given the options
CanPre(S, P)   == S.phase = "new"
CanAx(S, P)    == P.ax /\ S.phase = "pre"
CanDax(S, P)   == P.dax /\ S.phase = (IF P.ax THEN "axioms" ELSE "pre")
CanOne(S, P)   == S.phase = (IF P.dax THEN "daxioms" ELSE IF P.ax THEN "axioms" ELSE "pre")
CanCycle(S, P) == \/ S.phase = "one"
                  \/ S.phase = "rules" /\ S.seen = S.g /\ S.pend # {}
CanPost(S, P)  == S.phase = "rules" /\ S.seen = S.g /\ S.pend = {}

DoPre(S, P)    == Hook(S, "pre", P.pre)
DoAx(S, P)     == Hook(S, "axioms", P.axioms)
DoDax(S, P)    == Hook(S, "daxioms", P.daxioms)
DoOne(S, P)    == Hook(Flush(S), "one", P.one)
BeginCycle(S)  == [Flush(S) EXCEPT !.phase = "rules", !.n = @ + 1, !.seen = {}]
Fires(S, r, t) == /\ r.on \in {"*", t}
                  /\ \/ r.when = "any"
                     \/ r.when = "eq" /\ S.n = r.k
                     \/ r.when = "ge" /\ S.n >= r.k
                  /\ r.needs \in S.g \cup {"-"}
CanRule(S, t)  == S.phase = "rules" /\ t \in S.g
DoRule(S, P, t) ==
  LET rs == {i \in DOMAIN P.rules : Fires(S, P.rules[i], t)}
  IN  [Report(Store(S, {P.rules[i].store : i \in rs} \ {"-"}), {P.rules[i].msg : i \in rs} \ {"-"}) EXCEPT !.seen = @ \cup {t}]
DoPost(S, P)   == Hook(Flush(S), "post", P.post)
Emit(S)        == [Flush(S) EXCEPT !.phase = "done"]
=============================================================================
