------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Interpreting owl:imports.  A graph has import statements (refs) and     *)
(* other content (here: the set of documents it holds the content of).     *)
(* A step takes one reference out of the graph and loads the document,     *)
(* unless it has been loaded before; that may add import statements.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
VARIABLES imp,      \* imp[d]: the references in document d; imp["root"]: those of the graph
          refs,     \* import statements in the graph
          content,  \* the documents whose content the graph holds
          loads     \* documents loaded, in order
ivars == <<imp, refs, content, loads>>
Docs == DOMAIN imp \ {"root"}
Loaded == {loads[i] : i \in DOMAIN loads}
IInit(im) == imp = im /\ refs = im["root"] /\ content = {"root"} /\ loads = <<>>
Load(d) ==
  /\ d \in refs /\ d \notin Loaded
  /\ refs' = (refs \ {d}) \cup imp[d]
  /\ content' = content \cup {d}
  /\ loads' = Append(loads, d)
  /\ UNCHANGED imp
Drop(d) ==
  /\ d \in refs /\ d \in Loaded
  /\ refs' = refs \ {d}
  /\ UNCHANGED <<imp, content, loads>>
INext == \E d \in Docs : Load(d) \/ Drop(d)
IDone == refs = {}
\* documents reachable through import statements
RECURSIVE Closure(_, _)
Closure(im, S) == LET T == S \cup UNION {im[d] : d \in S} IN IF T = S THEN S ELSE Closure(im, T)
Reachable == Closure(imp, imp["root"])
OnceEach   == \A i, j \in DOMAIN loads : loads[i] = loads[j] => i = j
OnlyReachable == Loaded \subseteq Reachable
Complete   == IDone => content = {"root"} \cup Reachable
=============================================================================
