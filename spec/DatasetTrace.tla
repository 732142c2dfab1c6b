---------------------------- MODULE DatasetTrace ----------------------------
(***************************************************************************)
(* Where an expansion reads and writes.  A case records every graph of the *)
(* store before and after, what was expanded (a plain graph, one graph of  *)
(* a dataset, or a whole dataset), and the destination that was asked for. *)
(* From these the specification says which graphs are read, which graph is *)
(* written, or that the call is refused; ClosureTrace says what the graphs *)
(* read and written have to hold together.                                 *)
(***************************************************************************)
EXTENDS ClosureTrace

\* Case.source  [kind |-> "graph" | "dataset", name]      the name of a graph is "" for the default graph
\* Case.dest    [kind |-> "none" | "name" | "graph" | "foreign", name]
\* Case.before, Case.after   sequences of [name, ts]
Names == {Case.before[i].name : i \in DOMAIN Case.before} \cup {Case.after[i].name : i \in DOMAIN Case.after}
Content(s, nm) == UNION {ToSet(s[i].ts) : i \in {j \in DOMAIN s : s[j].name = nm}}

IsDataset == Case.source.kind = "dataset"
Refused   == \/ Case.dest.kind = "foreign"
             \/ Case.dest.kind = "name" /\ ~IsDataset
Target    == IF Case.dest.kind # "none" THEN Case.dest.name
             ELSE IF IsDataset THEN "" ELSE Case.source.name
Reads     == IF IsDataset THEN Names ELSE {Case.source.name, Target}

\* the input that ClosureTrace was given is what the expansion reads
ReadsInput == In = UNION {Content(Case.before, nm) : nm \in Reads}
WritesOut  == Out = UNION {Content(Case.after, nm) : nm \in Reads}

Changed == {nm \in Names : Content(Case.before, nm) # Content(Case.after, nm)}
DsVerdict ==
  IF Refused
  THEN [case |-> Case.id, size |-> 0, cycles |-> 0, ok |-> Changed = {} /\ Case.outcome = "ValueError",
        changed |-> Changed, outcome |-> Case.outcome, refused |-> TRUE,
        open |-> <<>>, onetime |-> <<>>, lost |-> {}, extra |-> {}, illegal |-> {}]
  ELSE
  LET v    == TLCEval(Verdict)
      dest == TLCEval(Content(Case.after, Target))
      ill  == {t \in dest : IsLit([lit |-> Lits], t[2]) \/ (GenPred(t) /\ ~KeepsGen)}
      moved == Content(Case.before, Target) \ (dest \cup {t \in In : GenPred(t)})
      away  == Changed \ {Target}
  IN  [v EXCEPT !.illegal = ill, !.ok = v.open = <<>> /\ v.onetime = <<>> /\ v.extra = {} /\ v.lost = {} /\ ill = {} /\ moved = {}
                                        /\ away = {} /\ Case.outcome = "ok"]
      @@ [changed |-> away, moved |-> moved, outcome |-> Case.outcome, refused |-> FALSE, input |-> ReadsInput /\ WritesOut]

\* a refused call does no reasoning
Refuse == /\ phase = "start" /\ Refused /\ phase' = "done" /\ UNCHANGED <<c, n, lt, g>>
JudgeDs == /\ phase = "done" /\ phase' = "judged"
           /\ PrintT("VERDICT " \o ToJson(DsVerdict))
           /\ g' = {} /\ UNCHANGED <<c, n, lt>>
NextD == Refuse \/ (~Refused /\ (AddAxioms \/ OneTime \/ Cycle)) \/ JudgeDs
SpecD == Init /\ [][NextD]_vars
=============================================================================
