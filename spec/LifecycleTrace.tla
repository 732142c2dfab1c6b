--------------------------- MODULE LifecycleTrace ---------------------------
(***************************************************************************)
(* Validates recorded hook calls against Lifecycle.  A case has            *)
(*   prog    the program, over the hooks that the subclass overrides       *)
(*   bg      tokens that the underlying semantics itself may infer (its    *)
(*           inferences may come at the end of any phase)                  *)
(*   bgrules pairs of tokens: the first implies the second                 *)
(*   fixed   nothing but tokens can be inferred (the underlying class is   *)
(*           the bare core)                                                *)
(*   flush   the hooks flush the stored triples themselves                 *)
(*   events  [h, n, t, vis, rest, ok]: the hook, cycle number, triple,     *)
(*           visible tokens, a number for the visible other triples, and   *)
(*           for a rule call: whether all that is visible is what was      *)
(*           visible at the start of the cycle; for the event after a      *)
(*           cycle: whether the rules were called for every triple.        *)
(*   final, msgs, nodes, others: the tokens and messages of the result,    *)
(*           the number of error nodes, and the messages of the semantics. *)
(***************************************************************************)
EXTENDS Lifecycle, SequencesExt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, S, rest, bad
vars == <<c, i, S, rest, bad>>
C  == Cases[c]
P  == C.prog
Ev == C.events[i]
Over == ToSet(C.over)
Bg == ToSet(C.bg)
F(X) == IF C.flush THEN Flush(X) ELSE X
\* hooks that are not overridden do nothing
Due(X) == IF CanPre(X, P) THEN "pre" ELSE IF CanAx(X, P) THEN "axioms" ELSE IF CanDax(X, P) THEN "daxioms" ELSE IF CanOne(X, P) THEN "one" ELSE "-"
Do(X, h) == F(CASE h = "pre" -> DoPre(X, P) [] h = "axioms" -> DoAx(X, P) [] h = "daxioms" -> DoDax(X, P) [] h = "one" -> DoOne(X, P) [] h = "post" -> DoPost(X, P))
RECURSIVE Silent(_)
Silent(X) == LET h == Due(X) IN IF h \in {"pre", "axioms", "daxioms", "one"} \ Over THEN Silent(Do(X, h)) ELSE X
\* an empty graph has one cycle without calls
NoCalls(X) == IF X.phase = "one" /\ Flush(X).g = {} THEN BeginCycle(X) ELSE X

\* X after the flush that precedes this event, with what the semantics itself has inferred
WithBg(X, vis) == [X EXCEPT !.g = @ \cup (vis \cap Bg)]
Step ==
  LET vis == ToSet(Ev.vis)
      X   == Silent(S)
      changed == rest # Ev.rest
  IN
  CASE Ev.h \in {"pre", "axioms", "daxioms", "one"} ->
         [why |-> IF Due(X) # Ev.h THEN "called after " \o X.phase
                  ELSE IF Ev.h = "one" /\ ~(Flush(X).g \subseteq vis) THEN "stored triples are not there"
                  ELSE IF ~(X.g \subseteq vis) THEN "triples are missing"
                  ELSE IF ~(vis \subseteq X.g \cup X.pend \cup Bg) THEN "triples from nowhere" ELSE "-",
          S |-> Do(WithBg(X, vis), Ev.h)]
    [] Ev.h = "cycle" ->
         LET Y == WithBg(BeginCycle(X), vis)
             more == X.pend # {} \/ changed \/ Y.g # X.g
         IN  [why |-> IF ~(X.phase = "one" \/ (X.phase = "rules" /\ X.seen = X.g)) THEN "cycle after " \o X.phase
                      ELSE IF X.phase = "rules" /\ ~more THEN "another cycle, although nothing was added"
                      ELSE IF ~Ev.ok THEN "the rules were not called for every triple"
                      ELSE IF Ev.n # Y.n THEN "wrong number of the cycle"
                      ELSE IF vis # Y.g THEN "not the triples stored before" ELSE "-",
              S |-> Y]
    [] Ev.h = "rule" ->
         [why |-> IF ~(S.phase = "rules" /\ Ev.n = S.n) THEN "rules called outside of their cycle"
                  ELSE IF Ev.t \notin S.g THEN "rules called for a triple that was not there"
                  ELSE IF ~Ev.ok \/ vis # S.g THEN "the graph changed within a cycle" ELSE "-",
          S |-> DoRule(S, P, Ev.t)]
    [] Ev.h = "post" ->
         LET Y == NoCalls(X) IN
         [why |-> IF ~(Y.phase = "rules" /\ Y.seen = Y.g) THEN "post-processing after " \o Y.phase
                  ELSE IF ~Ev.ok THEN "the rules were not called for every triple"
                  ELSE IF Y.pend # {} THEN "the last cycle stored something"
                  ELSE IF vis # Y.g \/ (changed /\ Y.n > 0 /\ Y.g # {}) THEN "the last cycle added something" ELSE "-",
          S |-> Do(Y, "post")]
    [] Ev.h = "end" ->      \* not a hook: the result
         LET Y == IF "post" \in Over THEN X ELSE DoPost(NoCalls(X), P)
             Z == Emit(Y)
             lone == ToSet(C.msgs) = Z.errs /\ Len(C.msgs) = Cardinality(Z.errs)
         IN  [why |-> IF Y.phase # "post" THEN "ended after " \o Y.phase
                      ELSE IF ~Ev.ok THEN "the rules were not called for every triple"
                      ELSE IF "post" \notin Over /\ (S.phase # "one" \/ S.g # {}) /\ ~CanPost(NoCalls(X), P) THEN "ended too early"
                      ELSE IF vis # Z.g THEN "the result is not what was stored"
                      ELSE IF ~lone THEN "wrong error nodes"
                      ELSE IF ~IsInjective(C.others) THEN "an error was reported twice"
                      ELSE IF C.nodes # Len(C.msgs) + Len(C.others) THEN "wrong number of error nodes"
                      ELSE IF \E r \in DOMAIN C.bgrules : C.bgrules[r][1] \in Y.seen /\ C.bgrules[r][2] \notin Y.seen THEN "not closed under the semantics"
                      ELSE IF \E r \in DOMAIN P.rules :
                                LET q == P.rules[r] IN /\ q.when = "any" /\ q.store \notin LitPred \cup {"-"} /\ q.needs \in Y.seen \cup {"-"}
                                                       /\ \E t \in Y.seen : q.on \in {"*", t}
                                                       /\ q.store \notin Y.seen THEN "not closed under the rules" ELSE "-",
              S |-> Z]
Say(why, n) == PrintT("VERDICT " \o ToJson([case |-> C.id, why |-> why, at |-> i, n |-> n]))
Init == c \in DOMAIN Cases /\ i = 1 /\ S = Start(ToSet(Cases[c].prog.input)) /\ rest = 0 /\ bad = "-"
Next ==
  /\ bad = "-" /\ i <= Len(C.events)
  /\ UNCHANGED c
  /\ LET r == TLCEval(Step)
         w == IF r.why = "-" /\ C.fixed /\ Ev.rest # 0 THEN "other triples appeared" ELSE r.why
     IN  /\ bad' = w
         /\ i' = i + 1
         /\ S' = IF w = "-" THEN r.S ELSE S
         /\ rest' = Ev.rest
         /\ (w # "-" => Say(w \o " (at " \o Ev.h \o ")", S.n))
         /\ (w = "-" /\ i = Len(C.events) => Say("-", r.S.n))
Spec == Init /\ [][Next]_vars
=============================================================================
