---------------------------- MODULE ClosureTrace ----------------------------
(***************************************************************************)
(* Trace validation of expansions.  Every case is one recorded expansion:  *)
(* the input graph, the options and the graph the implementation produced. *)
(* The behaviour of a case follows the phases of the engine: axioms, one-  *)
(* time rules, rule cycles until nothing new follows.  Then the recorded   *)
(* output is judged:                                                       *)
(*   lost    input triples that are gone                                   *)
(*   open    conclusions, per rule, of the output that are not in it       *)
(*   extra   output triples that are not in the least fixpoint             *)
(* `open' for the one-time knowledge is computed from the input.           *)
(***************************************************************************)
EXTENDS RuleSets, Axioms, Datatypes, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c,      \* case
          phase,  \* "start", "axioms", "onetime", "cycle", "done"
          g,      \* the graph so far
          n,      \* cycles done
          lt      \* the facts about the literals of the case
vars == <<c, phase, g, n, lt>>

Case   == Cases[c]
LX == INSTANCE Lexical
\* per case tables, evaluated once; a literal that comes with its characters is judged by its lexical space
\* The value of such a literal (where the specification has values), and its value space
ValueSpace(d) ==
  IF d \in DOMAIN LX!Bounds \/ d = "xsd:decimal" THEN "decimal"
  ELSE IF d \in {"xsd:dateTime", "xsd:dateTimeStamp"} THEN "dateTime"
  ELSE IF d \in {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN"} THEN "string"
  ELSE d
ValueOf(x, j) ==
  IF ~j.ok THEN ""
  ELSE IF ValueSpace(x.dt) = "string" THEN ToString(<<"string", x.s>>)
  ELSE IF j.val = <<>> \/ j.val[1].kind = "special" THEN ""
  ELSE ToString(<<ValueSpace(x.dt), j.val>>)
Fact(x) == IF "s" \in DOMAIN x THEN LET j == LX!Judgement(IF "like" \in DOMAIN x THEN x.like ELSE x.dt, x.s) IN [x EXCEPT !.ok = j.ok, !.val = ValueOf(x, j)] ELSE x
LitTab(s) == LET L == {Fact(s[i]) : i \in DOMAIN s} IN TLCEval([l \in {x.t : x \in L} |-> CHOOSE x \in L : x.t = l])
AllIn   == TLCEval([i \in DOMAIN Cases |-> ToSet(Cases[i].inp)])
AllOut  == TLCEval([i \in DOMAIN Cases |-> ToSet(Cases[i].out)])
AllBN   == TLCEval([i \in DOMAIN Cases |-> ToSet(Cases[i].bnodes)])
In     == AllIn[c]
Out    == AllOut[c]
Lits   == lt
BNodes == AllBN[c]

IsOwl   == Case.sem \in {"owl", "comb", "ext", "extrdfs"}
IsRdfs  == Case.sem \in {"rdfs", "comb", "extrdfs"}
IsExt   == Case.sem \in {"ext", "extrdfs"}
IsBound == Case.sem \in {"comb", "ext", "extrdfs"}

RulesOf ==
  (IF IsOwl THEN OwlRules ELSE {}) \cup (IF IsRdfs THEN RdfsRules ELSE {}) \cup (IF IsExt THEN ExtRules ELSE {})

----------------------------------------------------------------------------
\* Axioms
ContainerAxioms ==
  UNION {{<<p, "rdf:type", "rdf:Property">>, <<p, "rdfs:domain", "rdfs:Resource">>,
          <<p, "rdfs:range", "rdfs:Resource">>, <<p, "rdf:type", "rdfs:ContainerMembershipProperty">>}
         : p \in ToSet(Case.members)}
AxiomTriples ==
  IF ~Case.ax THEN {} ELSE
  (IF IsRdfs THEN RdfsAxioms \cup ContainerAxioms ELSE {})
  \cup (IF IsOwl THEN OwlAxioms ELSE {}) \cup (IF IsExt THEN ExtAxioms ELSE {})
ObjLits(T) == {t[3] : t \in T} \cap DOMAIN Lits
\* RDFS: well-typed literals belong to their datatype
RdfsTyping(T) == {<<l, "rdf:type", Lits[l].dt>> : l \in {x \in ObjLits(T) : Lits[x].dt # "" /\ Lits[x].ok}}
DAxiomTriples ==
  IF ~Case.dax THEN {} ELSE
  (IF IsRdfs THEN RdfsDAxioms \cup RdfsTyping(In) ELSE {}) \cup (IF IsOwl THEN OwlDAxioms ELSE {})

----------------------------------------------------------------------------
\* One-time rules
\* datatypes that a subclass of the semantics adds: a datatype, the datatype with the same lexical space, its supers;
\* or more supers of a datatype that is there already
Added     == IF "added" \in DOMAIN Case THEN ToSet(Case.added) ELSE {}
AddedRel  == UNION {{<<x.dt, s>> : s \in ToSet(x.supers)} : x \in Added}
Supported == (IF IsExt THEN OwlSupported \cup {"owl:rational"} ELSE OwlSupported) \cup {x.dt : x \in Added}
Rel       == (IF IsExt THEN ExtDerived ELSE Derived) \cup AddedRel
OwlSupers == TLCEval([d \in OwlSupported |-> SupersIn(Derived, d)])
ExtSupers == TLCEval([d \in OwlSupported \cup {"owl:rational"} |-> SupersIn(ExtDerived, d)])
SupersTab == IF Added # {} THEN [d \in Supported |-> SupersIn(Rel, d)] ELSE IF IsExt THEN ExtSupers ELSE OwlSupers
Declared  == {<<d, "rdf:type", "rdfs:Datatype">> : d \in Supported}

LitTyping(T) ==
  UNION {{<<l, "rdf:type", d>> : d \in {Lits[l].dt} \cup SupersTab[Lits[l].dt]} :
         l \in {x \in ObjLits(T) : Lits[x].dt \in Supported /\ Lits[x].ok}}
\* resources typed with a datatype
ResTyping(T) ==
  UNION {{<<t[1], "rdf:type", d>> : d \in SupersTab[t[3]]} : t \in {u \in T : u[2] = "rdf:type" /\ u[3] \in Supported}}
UsedIn(T) ==
  LET own == ({Lits[l].dt : l \in ObjLits(T)} \cup {t[3] : t \in {u \in T : u[2] = "rdf:type"}}) \cap Supported
  IN  own \cup UNION {SupersTab[d] : d \in own}
Used(T) ==   \* ill-typed literals use their datatype, but have no super-datatypes
  LET bad == {l \in ObjLits(T) : ~Lits[l].ok}
      own == ({Lits[l].dt : l \in ObjLits(T) \ bad} \cup {t[3] : t \in {u \in T : u[2] = "rdf:type"}}) \cap Supported
  IN  own \cup UNION {SupersTab[d] : d \in own} \cup ({Lits[l].dt : l \in bad} \cap Supported)
MayDisjoint(T) ==
  LET U == UsedIn(T)
  IN  {<<x[1], "owl:disjointWith", x[2]>> : x \in {y \in U \X U : Disjoint(y[1], y[2])}}

Binding ==
  {<<"owl:Thing", "owl:equivalentClass", "rdfs:Resource">>, <<"rdfs:Class", "owl:equivalentClass", "owl:Class">>,
   <<"owl:DataRange", "owl:equivalentClass", "rdfs:Datatype">>}

\* RDFS: a triple with a literal object holds for every literal of the same value
SameValue(a, b) == a = b \/ (Lits[a].val # "" /\ Lits[a].val = Lits[b].val)
LitCopies(T) ==
  UNION {{<<t[1], t[2], l>> : l \in {x \in ObjLits(T) : SameValue(x, t[3])}} : t \in {u \in T : u[3] \in DOMAIN Lits}}

\* what certainly follows from the initial graph T ...
OneTimeMust(T) ==
  (IF IsOwl THEN Declared \cup LitTyping(T) \cup ResTyping(T) ELSE {})
  \cup (IF IsBound THEN Binding ELSE {})
  \cup (IF Case.sem = "rdfs" THEN LitCopies(T) ELSE {})
\* ... and what may be concluded from any later graph
LaterMay(T) ==
  IF IsOwl THEN LitTyping(T) \cup ResTyping(T) \cup MayDisjoint(T) ELSE {}

----------------------------------------------------------------------------
Init == c \in 1..Len(Cases) /\ phase = "start" /\ g = {} /\ n = 0 /\ lt = LitTab(Cases[c].lits)

AddAxioms  == phase = "start"  /\ phase' = "axioms" /\ g' = In \cup AxiomTriples \cup DAxiomTriples /\ UNCHANGED <<c, n, lt>>
OneTime    == phase = "axioms" /\ phase' = "cycle" /\ g' = g \cup OneTimeMust(g) /\ UNCHANGED <<c, n, lt>>
Cycle ==
  /\ phase = "cycle"
  /\ LET new == Step(RulesOf, MkK(g, Lits)) \cup LaterMay(g)
     IN  IF new \subseteq g THEN phase' = "done" /\ g' = g /\ n' = n
         ELSE phase' = phase /\ g' = g \cup new /\ n' = n + 1
  /\ UNCHANGED <<c, lt>>

----------------------------------------------------------------------------
\* Judging the recorded output
GenPred(t) == t[2] \in BNodes
Initial == In \cup AxiomTriples \cup DAxiomTriples
\* Triples with bnode predicates took part in the reasoning and are gone.  Those that only follow from what may,
\* but need not, be concluded (and has not been) may never have been there.
RECURSIVE Certain(_)
Certain(T) == LET new == TLCEval(Step(RulesOf, MkK(T, Lits)) \cup (LaterMay(T) \cap Out))
              IN  IF new \subseteq T THEN T ELSE Certain(T \cup new)
Hidden == LET H == {t \in g : GenPred(t)}
          IN  IF H \subseteq In \/ LaterMay(g) \subseteq Out THEN H
              ELSE {t \in Certain(Initial \cup OneTimeMust(Initial)) : GenPred(t)}
Full == Out \cup TLCEval(Hidden)
KeepsGen == Case.sem = "rdfs"
Visible(T) == IF KeepsGen THEN T ELSE {t \in T : ~GenPred(t)}

Lost      == Visible(In) \ Out
OneTimeMissing(name) ==
  CASE name = "axioms"   -> Visible(AxiomTriples) \ Out
    [] name = "daxioms"  -> Visible(DAxiomTriples) \ Out
    [] name = "binding"  -> (IF IsBound THEN Binding ELSE {}) \ Out
    [] name = "declared" -> (IF IsOwl THEN Declared ELSE {}) \ Out
    [] name = "littype"  -> (IF IsOwl THEN LitTyping(Initial) ELSE {}) \ Out
    [] name = "restype"  -> (IF IsOwl THEN ResTyping(Initial) ELSE {}) \ Out
    [] name = "litcopy"  -> (IF Case.sem = "rdfs" THEN Visible(LitCopies(Initial)) ELSE {}) \ Out
    [] name = "disjoint" -> IF ~IsOwl THEN {} ELSE
                            {<<x[1], "owl:disjointWith", x[2]>> :
                             x \in {y \in Used(Initial) \X Used(Initial) : MustBeDisjoint(y[1], y[2])
                                     /\ <<y[1], "owl:disjointWith", y[2]>> \notin Out
                                     /\ <<y[2], "owl:disjointWith", y[1]>> \notin Out}}
OneTimeNames == {"axioms", "daxioms", "binding", "declared", "littype", "restype", "litcopy", "disjoint"}

Extra == Out \ g
Illegal == {t \in Out : IsLit([lit |-> Lits], t[2]) \/ (GenPred(t) /\ ~KeepsGen)}

Open == LET K == TLCEval(MkK(Full, Lits)) IN
        [r \in RulesOf |-> Visible(Storable(K, Concl(r, K))) \ Out]

Verdict ==
  LET open == TLCEval(Open)
      bad  == {r \in RulesOf : open[r] # {}}
      bad1 == {r \in OneTimeNames : OneTimeMissing(r) # {}}
  IN  [case |-> Case.id, size |-> Cardinality(g), cycles |-> n, out |-> Cardinality(Out),
       open |-> [r \in bad |-> open[r]], onetime |-> [r \in bad1 |-> OneTimeMissing(r)],
       ill |-> {l \in DOMAIN Lits : ~Lits[l].ok /\ Lits[l].dt \in Supported},
       lost |-> Lost, extra |-> Extra, illegal |-> Illegal,
       ok |-> bad = {} /\ bad1 = {} /\ Lost = {} /\ Extra = {} /\ Illegal = {}]

Judge == /\ phase = "done" /\ phase' = "judged"
         /\ PrintT("VERDICT " \o ToJson(Verdict))
         /\ g' = {} /\ UNCHANGED <<c, n, lt>>

Next == AddAxioms \/ OneTime \/ Cycle \/ Judge
Spec == Init /\ [][Next]_vars
\* the big graph is a function of the rest of the state
View == <<c, phase, n>>
=============================================================================
