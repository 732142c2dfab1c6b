------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* The conversion entry point: which semantics, axioms and sources a set   *)
(* of options selects.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
OptNames == {"owlClosure", "rdfsClosure", "owlExtras", "trimming", "axioms", "daxioms"}
\* an option may be a boolean or a string
On(v) == v \in {"True!", "yes", "Yes", "True", "true"}

Semantics(o) ==
  LET owl == On(o.owlClosure) rdfs == On(o.rdfsClosure) ext == On(o.owlExtras) trim == On(o.trimming)
  IN  IF owl THEN
        IF ext THEN (IF trim THEN "trim" ELSE "ext") ELSE IF rdfs THEN "comb" ELSE "owl"
      ELSE IF rdfs THEN "rdfs" ELSE "none"
\* a closure class given explicitly comes first
Class(o, cls) == IF cls # "-" THEN cls ELSE Semantics(o)
\* the extensions apply the RDFS rules only if asked to
WithRdfs(o, s) == IF s \in {"ext", "trim"} /\ On(o.rdfsClosure) THEN s \o "rdfs" ELSE s
Key(o, cls) ==
  LET s == WithRdfs(o, Class(o, cls))
  IN  [sem |-> s, ax |-> s # "none" /\ On(o.axioms), dax |-> s # "none" /\ On(o.daxioms)]
Interprets(o) == On(o.owlClosure)

\* the command line: options are set one after the other, -m in the end
Default == [owlClosure |-> "no", rdfsClosure |-> "no", owlExtras |-> "no", trimming |-> "no", axioms |-> "no", daxioms |-> "no", maximal |-> "no"]
Flags == ([n : {"owlClosure", "rdfsClosure", "owlExtras", "trimming", "axioms", "daxioms"}, v : {"short", "yes", "no"}]
          \cup [n : {"maximal"}, v : {"short", "long"}])
Apply(o, f) == [o EXCEPT ![f.n] = IF f.v = "no" THEN "no" ELSE "yes"]
RECURSIVE ApplyAll(_, _)
ApplyAll(o, fs) == IF fs = <<>> THEN o ELSE ApplyAll(Apply(o, Head(fs)), Tail(fs))
Finish(o) == IF o.maximal = "yes" THEN [o EXCEPT !.owlClosure = "yes", !.rdfsClosure = "yes", !.owlExtras = "yes", !.trimming = "yes"] ELSE o
Options(fs) == Finish(ApplyAll(Default, fs))

\* the web service: the fields of the form; "fullClosure" comes first
Field(f, n) == IF n \in DOMAIN f THEN f[n] ELSE "no"
FormOptions(f) ==
  IF Field(f, "fullClosure") = "yes"
  THEN [owlClosure |-> "yes", rdfsClosure |-> "yes", owlExtras |-> "no", trimming |-> "no", axioms |-> "no", daxioms |-> "no"]
  ELSE [owlClosure |-> Field(f, "owlClosure"), rdfsClosure |-> Field(f, "rdfsClosure"), owlExtras |-> Field(f, "owlExtras"), trimming |-> "no",
        axioms |-> Field(f, "axioms"), daxioms |-> Field(f, "daxioms")]
=============================================================================
