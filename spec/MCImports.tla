----------------------------- MODULE MCImports -----------------------------
\* Every import graph over a graph and three documents (in simulation: four); printed for replay.
EXTENDS Imports, TLC, Json, IOUtils
D == IF IOEnv.DOCS = "4" THEN {"d1", "d2", "d3", "d4"} ELSE {"d1", "d2", "d3"}
Init == \E im \in [D \cup {"root"} -> SUBSET D] : IInit(im)
Next == INext
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)
Ends == <>IDone
Emit == loads = <<>> /\ refs = imp["root"] => PrintT("IMPORTS " \o ToJson([imp |-> imp, reach |-> Reachable]))
=============================================================================
