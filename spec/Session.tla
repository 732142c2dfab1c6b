------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* One process that uses the library: what survives from one call to the   *)
(* next.  The state is RDFLib's literal conversion table (which the        *)
(* library may switch), the global switch, conversions the application     *)
(* binds itself, and the table to go back to while an expansion runs.      *)
(* Nothing else survives: the outcome of an expansion is a function of the *)
(* job and of the conversions (Outcome), never of the history.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES
  flag,     \* the global switch
  std,      \* conversions of the datatypes both tables know: "rdflib" or "improved"
  own,      \* the application has bound a datatype of its own
  nmt,      \* the application has bound a datatype that only the improved table knows
  running,  \* the job being expanded, or 0
  saved     \* the conversions when it began
session == <<flag, std, own, nmt, running, saved>>

InitSession == flag = FALSE /\ std = "rdflib" /\ own = FALSE /\ nmt = FALSE /\ running = 0 /\ saved = "rdflib"

SwitchOn  == running = 0 /\ flag' = TRUE  /\ std' = "improved" /\ UNCHANGED <<own, nmt, running, saved>>
SwitchOff == running = 0 /\ flag' = FALSE /\ std' = "rdflib"   /\ UNCHANGED <<own, nmt, running, saved>>
\* an application binds its conversions while RDFLib's own are in use
BindOwn   == running = 0 /\ ~own /\ own' = TRUE /\ UNCHANGED <<flag, std, nmt, running, saved>>
BindNmt   == running = 0 /\ ~nmt /\ std = "rdflib" /\ nmt' = TRUE /\ UNCHANGED <<flag, std, own, running, saved>>

Begin(j, improved) ==
  /\ running = 0 /\ running' = j /\ saved' = std
  /\ std' = IF improved THEN "improved" ELSE std
  /\ UNCHANGED <<flag, own, nmt>>
\* the expansion ends, whether it succeeds or raises
End == running # 0 /\ running' = 0 /\ std' = saved /\ UNCHANGED <<flag, own, nmt, saved>>

\* what an application sees of the conversion table
NmtSeen == IF std = "improved" THEN "improved" ELSE IF nmt THEN "own" ELSE "none"
Seen    == [std |-> std, own |-> own, nmt |-> NmtSeen]

SessionType == /\ flag \in BOOLEAN /\ own \in BOOLEAN /\ nmt \in BOOLEAN
               /\ std \in {"rdflib", "improved"} /\ saved \in {"rdflib", "improved"}
FollowsSwitch == running = 0 => std = (IF flag THEN "improved" ELSE "rdflib")
ImprovedIfGlobal == flag => std = "improved"
=============================================================================
