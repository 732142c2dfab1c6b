----------------------------- MODULE MCConvert -----------------------------
(* Every combination of options for the entry point, and command lines of up to LEN flags; printed for replay. *)
EXTENDS Convert, TLC, Json, IOUtils
Length == CASE IOEnv.LEN = "2" -> 2 [] IOEnv.LEN = "3" -> 3 [] OTHER -> 1
Classes == {"-", "rdfs", "owl", "comb", "ext", "trim"}
VARIABLES mode, opts, cls, flags
vars == <<mode, opts, cls, flags>>
Init == \/ mode = "api" /\ opts \in [OptNames -> {"yes", "no"}] /\ cls \in Classes /\ flags = <<>>
        \/ mode = "cli" /\ opts = Default /\ cls = "-" /\ flags = <<>>
Give == /\ mode = "cli" /\ Len(flags) < Length
        /\ \E f \in Flags : flags' = Append(flags, f) /\ opts' = Apply(opts, f)
        /\ UNCHANGED <<mode, cls>>
Spec == Init /\ [][Give]_vars
----------------------------------------------------------------------------
Eff == IF mode = "cli" THEN Finish(opts) ELSE opts
K == Key(Eff, cls)
\* the flags given so far say the same all at once
Fold == mode = "cli" => opts = ApplyAll(Default, flags)
\* documented effects
NoOwlNoExtras == cls = "-" /\ ~On(Eff.owlClosure) => K.sem \in {"none", "rdfs"}
TrimNeedsExtras == cls = "-" /\ ~On(Eff.owlExtras) => K.sem \notin {"trim", "trimrdfs", "ext", "extrdfs"}
NothingOnlyConverts == cls = "-" /\ ~On(Eff.owlClosure) /\ ~On(Eff.rdfsClosure) => K = [sem |-> "none", ax |-> FALSE, dax |-> FALSE]
Maximal == mode = "cli" /\ opts.maximal = "yes" => K.sem = "trimrdfs"
LastWins == mode = "cli" /\ flags # <<>> => opts[flags[Len(flags)].n] = (IF flags[Len(flags)].v = "no" THEN "no" ELSE "yes")
Emit == PrintT("CONVERT " \o ToJson([mode |-> mode, opts |-> opts, cls |-> cls, flags |-> flags, key |-> K]))
=============================================================================
