----------------------------- MODULE MCSession ------------------------------
(***************************************************************************)
(* Every history of N calls.  A job is a record [improved, fails].         *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
Jobs == JsonDeserialize(IOEnv.JOBS)
N    == Len(Jobs.length)
Switches == Jobs.switches
Binds == Jobs.binds
VARIABLE hist
Log(a) == hist' = Append(hist, a)
Call(j) == /\ Begin(j, Jobs.jobs[j].improved) /\ Log([do |-> "expand", job |-> j])
Next ==
  \/ running # 0 /\ End /\ UNCHANGED hist
  \/ /\ running = 0 /\ Len(hist) < N
     /\ \/ Switches /\ SwitchOn  /\ Log([do |-> "on", job |-> 0])
        \/ Switches /\ SwitchOff /\ Log([do |-> "off", job |-> 0])
        \/ Binds /\ BindOwn /\ Log([do |-> "own", job |-> 0])
        \/ Binds /\ BindNmt /\ Log([do |-> "nmt", job |-> 0])
        \/ \E j \in DOMAIN Jobs.jobs : Call(j)
Init == InitSession /\ hist = <<>>
Spec == Init /\ [][Next]_<<session, hist>>
Restored == [][running # 0 /\ running' = 0 => std' = saved /\ own' = own /\ nmt' = nmt]_<<session, hist>>
ActiveIff == running # 0 => (std = "improved" <=> Jobs.jobs[running].improved \/ flag)
Emit == (Len(hist) = N /\ running = 0) => PrintT("HIST " \o ToJson(hist))
=============================================================================
