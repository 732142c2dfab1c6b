----------------------------- MODULE ViolTrace ------------------------------
(***************************************************************************)
(* Validates the error reports of recorded expansions.  A message is a     *)
(* record [kind, args]: what kind of violation it says, and for each       *)
(* resource it mentions the set of terms that mention can stand for.       *)
(* Every violated instance of the least fixpoint must be reported, every   *)
(* report must be of a violated instance.  What the conclusions of the     *)
(* expansion are is judged by ClosureTrace; the violations are those of    *)
(* the specified closure.                                                  *)
(***************************************************************************)
EXTENDS ClosureTrace, Violations

KindOf(r) ==
  CASE r \in {"eq-diff1", "eq-diff2", "eq-diff3"} -> "different"
    [] r = "prp-irp"  -> "irreflexive"
    [] r = "prp-asyp" -> "asymmetric"
    [] r \in {"prp-pdw", "prp-adp"} -> "disjoint properties"
    [] r \in {"prp-npa1", "prp-npa2"} -> "negative"
    [] r = "cls-nothing2" -> "nothing"
    [] r = "cls-com"  -> "complement"
    [] r = "cls-maxc1" -> "max"
    [] r \in {"cls-maxqc1", "cls-maxqc2"} -> "max qualified"
    [] r \in {"cax-dw", "cax-adc"} -> "disjoint classes"

Msgs == Case.sigs       \* [kind, args, text]
\* optional arguments: a message may say which qualifier owl:Thing it is about
Free == {"owl:Thing"}
Describes(m, v) ==
  /\ m.kind = v.kind
  /\ \A i \in DOMAIN m.args : ToSet(m.args[i]) \cap (v.who \cup Free) # {}
  /\ \A w \in v.who : \E i \in DOMAIN m.args : w \in ToSet(m.args[i])

\* A list cell whose member is the same as other resources holds all of them
\* (eq-rep-o), so that a report about members of a list may name any of these.
ListRules == {"eq-diff2", "eq-diff3", "prp-adp", "cax-adc"}
Alias(K, w) == {w} \cup Obj(K, w, "owl:sameAs") \cup {x[1] : x \in {y \in P(K, "owl:sameAs") : y[2] = w}}
DescribesAlias(m, v, al) ==
  /\ m.kind = v.kind
  /\ \A i \in DOMAIN m.args : ToSet(m.args[i]) \cap (UNION {al[w] : w \in v.who}) # {}
  /\ \A w \in v.who : \E i \in DOMAIN m.args : al[w] \cap ToSet(m.args[i]) # {}

\* The specification leaves out what it knows about datatypes that play no part
\* (see ClosureTrace); messages about these are beyond it.
TermsOf == UNION {{t[1], t[2], t[3]} : t \in g}
Beyond(m, ts) == \E i \in DOMAIN m.args : ToSet(m.args[i]) \cap (ts \cup Free) = {}

Violated == LET K == TLCEval(MkK(g, Lits)) IN
  UNION {{[kind |-> KindOf(r), who |-> ToSet(x), rule |-> r] : x \in Viol(r, K)} : r \in ViolRules}

ErrVerdict ==
  LET vs == TLCEval(Violated)
      K  == TLCEval(MkK(g, Lits))
      al == TLCEval([w \in UNION {v.who : v \in vs} |-> Alias(K, w)])
      ms == DOMAIN Msgs
      ts == TLCEval(TermsOf)
  IN  [case |-> Case.id, size |-> Cardinality(g), cycles |-> n, nviol |-> Cardinality(vs),
       rules |-> {v.rule : v \in vs},
       unreported |-> {v \in vs : ~\E i \in ms : \/ Describes(Msgs[i], v)
                                               \/ (v.rule \in ListRules /\ DescribesAlias(Msgs[i], v, al))},
       unjustified |-> {Msgs[i].text : i \in {j \in ms : Msgs[j].kind \notin {"ill-typed", "range"} /\ ~Beyond(Msgs[j], ts) /\ ~\E v \in vs : Describes(Msgs[j], v)}}]

JudgeErrors == /\ phase = "done" /\ phase' = "judged"
               /\ PrintT("VERDICT " \o ToJson(ErrVerdict))
               /\ g' = {} /\ UNCHANGED <<c, n, lt>>
NextE == AddAxioms \/ OneTime \/ Cycle \/ JudgeErrors
SpecE == Init /\ [][NextE]_vars
=============================================================================
