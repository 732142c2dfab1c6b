---------------------------- MODULE ConvertTrace ----------------------------
(***************************************************************************)
(* Validates recorded conversions.  Triples are numbers; Gen are those     *)
(* that no RDF syntax can express.  Table has, for sets of documents, what *)
(* each semantics makes of their union.  imports: what the documents       *)
(* import.  A case has its options (or command line flags), its sources    *)
(* and the triples parsed back from the output (outs[case.out]).           *)
(***************************************************************************)
EXTENDS Convert, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
S(x) == {x[k] : k \in DOMAIN x}
Table == Data.table
Gen == TLCEval(S(Data.gen))
Outs == TLCEval([k \in DOMAIN Data.outs |-> S(Data.outs[k])])
Expr == TLCEval([k \in DOMAIN Table |-> S(Table[k].out) \ Gen])
TabDocs == TLCEval([k \in DOMAIN Table |-> S(Table[k].docs)])
VARIABLES c, step
C == Data.cases[c]
Opts == IF C.mode = "cli" THEN Options(C.flags) ELSE IF C.mode = "cgi" THEN FormOptions(C.opts) ELSE C.opts
RECURSIVE Reach(_)
Reach(D) == LET E == D \cup UNION {S(Data.imports[d]) : d \in D \cap DOMAIN Data.imports} IN IF E = D THEN D ELSE Reach(E)
Docs == IF Interprets(Opts) THEN Reach(S(C.docs)) ELSE S(C.docs)
Entry == CHOOSE k \in DOMAIN Table : TabDocs[k] = Docs /\ Table[k].interpreted = Interprets(Opts) /\ Table[k].sem = Key(Opts, C.cls).sem
                                       /\ Table[k].ax = Key(Opts, C.cls).ax /\ Table[k].dax = Key(Opts, C.cls).dax
Verdict == [case |-> C.id, key |-> Key(Opts, C.cls), missing |-> Expr[Entry] \ Outs[C.out], extra |-> Outs[C.out] \ Expr[Entry]]
Init == c \in DOMAIN Data.cases /\ step = 0
Next == step = 0 /\ step' = 1 /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, step>>
=============================================================================
