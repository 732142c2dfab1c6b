---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories against Session.  Each record of a history *)
(* is one call: what it was, what an application saw of the conversions    *)
(* during it (`during', a sequence) and after it, and for an expansion its *)
(* outcome.  Fresh gives the outcome of every job in a new process.        *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt
In    == JsonDeserialize(IOEnv.CASES)
Hists == In.hists
Fresh == In.fresh         \* Fresh[job][flag] with flag "on" or "off"
Jobs  == In.jobs
VARIABLES h, i, bad, step
vars == <<session, h, i, bad, step>>
Rec == Hists[h].steps[i]
More == i <= Len(Hists[h].steps)

Note(s) == bad' = bad \o s
Wrong(when, got) == IF got = Seen' THEN <<>> ELSE <<[step |-> i, when |-> when, got |-> got, want |-> Seen']>>
Switch ==
  /\ More /\ running = 0 /\ Rec.do # "expand"
  /\ CASE Rec.do = "on" -> SwitchOn [] Rec.do = "off" -> SwitchOff [] Rec.do = "own" -> BindOwn [] Rec.do = "nmt" -> BindNmt
  /\ Note(Wrong("after " \o Rec.do, Rec.after))
  /\ i' = i + 1 /\ UNCHANGED <<h, step>>
Start ==
  /\ More /\ running = 0 /\ Rec.do = "expand"
  /\ Begin(Rec.job, Jobs[Rec.job].improved)
  /\ LET w == {d \in ToSet(Rec.during) : d # Seen'}
     IN  Note(IF w = {} THEN <<>> ELSE <<[step |-> i, when |-> "during", got |-> CHOOSE d \in w : TRUE, want |-> Seen']>>)
  /\ UNCHANGED <<h, i, step>>
Finish ==
  /\ running # 0 /\ End
  /\ LET want == IF flag THEN Fresh[Rec.job].on ELSE Fresh[Rec.job].off
     IN  Note(Wrong("after", Rec.after) \o
              (IF Rec.outcome = want THEN <<>> ELSE <<[step |-> i, when |-> "outcome", got |-> Rec.outcome, want |-> want]>>))
  /\ i' = i + 1 /\ UNCHANGED <<h, step>>
Judge == /\ ~More /\ step = 0 /\ step' = 1
         /\ PrintT("VERDICT " \o ToJson([case |-> Hists[h].id, bad |-> bad]))
         /\ UNCHANGED <<session, h, i, bad>>
Init == InitSession /\ h \in DOMAIN Hists /\ i = 1 /\ bad = <<>> /\ step = 0
Next == Switch \/ Start \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
