------------------------------ MODULE MCRules -------------------------------
(***************************************************************************)
(* Every instantiation pattern of every row of RuleTable: which variables  *)
(* denote the same resource, and which premise (if any) is missing.  Each  *)
(* state is one such pattern together with the graph that spells it out.   *)
(*                                                                         *)
(*   FastAgrees   on that graph the set-based operator of the rule gives   *)
(*                exactly what declarative matching of the rows gives      *)
(*   Fires        a complete instance has its conclusion / is violated     *)
(*   Needed       the rows are irredundant enough to be worth testing:     *)
(*                with distinct variables a missing premise means no       *)
(*                conclusion from that instance                            *)
(*                                                                         *)
(* The states are also the test graphs replayed into the implementation.   *)
(***************************************************************************)
EXTENDS RuleTable, Violations, SequencesExt, FiniteSetsExt, Json, IOUtils

CONSTANTS Names, AllRules, Emit
NamesFromEnv == LET s == IOEnv.RULES IN
  IF s = "*" THEN {RuleTable[i].name : i \in DOMAIN RuleTable} ELSE ToSet(JsonDeserialize(s))
EmitFromEnv == IOEnv.EMIT = "1"
AllFromEnv  == IOEnv.ALLRULES = "1"

Rows == {i \in DOMAIN RuleTable : RuleTable[i].name \in Names}

\* restricted growth strings: the set partitions of 1..n, at least b blocks
RECURSIVE RGS(_)
RGS(n) == IF n = 0 THEN {<<>>}
          ELSE UNION {{Append(s, k) : k \in 1..(1 + Max({0} \cup ToSet(s)))} : s \in RGS(n - 1)}
RECURSIVE RGSb(_, _)        \* with at most m merges
RGSb(n, m) == IF n = 0 THEN {<<>>}
              ELSE UNION {{s2 \in {Append(s, k) : k \in 1..(1 + Max({0} \cup ToSet(s)))} :
                           n - Max(ToSet(s2)) <= m} : s \in RGSb(n - 1, m)}
MaxMerges(n) == IF n <= 4 THEN n ELSE IF n <= 6 THEN 2 ELSE 1
Partitions == TLCEval([n \in 0..10 |-> TLCEval(RGSb(n, MaxMerges(n)))])

VARIABLES row, part, drop
vars == <<row, part, drop>>
Rule   == RuleTable[row]
VarSeq == SetToSeq(Rule.v)
\* canonical resource of a variable: the first variable of its block
Rep(v) == LET i == CHOOSE j \in DOMAIN VarSeq : VarSeq[j] = v
              k == CHOOSE j \in DOMAIN VarSeq : part[j] = part[i] /\ \A h \in 1..(j - 1) : part[h] # part[i]
          IN  VarSeq[k]
Ground(x) == IF x \in Rule.v THEN "x:" \o Rep(x) ELSE IF x \in Rule.cells THEN "_:" \o x ELSE x
GroundT(t) == <<Ground(t[1]), Ground(t[2]), Ground(t[3])>>
Atoms(seq) == {GroundT(seq[i]) : i \in DOMAIN seq}
Graph == {GroundT(Rule.body[i]) : i \in DOMAIN Rule.body \ {drop}} \cup Atoms(Rule.lists)

Facts == [l \in {"\"0\"^^xsd:nonNegativeInteger", "\"1\"^^xsd:nonNegativeInteger", "\"true\"^^xsd:boolean"} |->
          [t |-> l, num |-> IF l = "\"0\"^^xsd:nonNegativeInteger" THEN "0"
                            ELSE IF l = "\"1\"^^xsd:nonNegativeInteger" THEN "1" ELSE "-"]]

----------------------------------------------------------------------------
\* Declarative matching of a row
Val(s, x) == IF x \in DOMAIN s THEN s[x] ELSE x
Unify(r, s, a, t) ==
  LET Vs == r.v \cup r.cells
      ok(x, y) == IF x \in Vs THEN (x \in DOMAIN s => s[x] = y) ELSE x = y
      new == {a[i] : i \in 1..3} \cap Vs
      val(x) == CHOOSE y \in {t[i] : i \in {j \in 1..3 : a[j] = x}} : TRUE
      same == \A i, j \in 1..3 : a[i] = a[j] => t[i] = t[j]
  IN  IF (\A i \in 1..3 : ok(a[i], t[i])) /\ same
      THEN {s @@ [x \in new |-> val(x)]} ELSE {}
RECURSIVE Match(_, _, _, _, _)
Match(r, atoms, i, g, ss) ==
  IF i > Len(atoms) \/ ss = {} THEN ss
  ELSE Match(r, atoms, i + 1, g, UNION {UNION {Unify(r, s, atoms[i], t) : t \in g} : s \in ss})
Solutions(r, g) == Match(r, r.body \o r.lists, 1, g, {<<>>})
Inst(s, t) == <<Val(s, t[1]), Val(s, t[2]), Val(s, t[3])>>
TableConcl(name, g) ==
  UNION {LET r == RuleTable[i] IN UNION {{Inst(s, t) : t \in r.head} : s \in Solutions(r, g)}
         : i \in {j \in DOMAIN RuleTable : RuleTable[j].name = name}}
TableViol(name, g) ==
  UNION {LET r == RuleTable[i] IN {[k \in DOMAIN r.who |-> Val(s, r.who[k])] : s \in Solutions(r, g)}
         : i \in {j \in DOMAIN RuleTable : RuleTable[j].name = name}}

IsViol(name) == name \in ViolRules
\* the set operators leave out what is a premise already
Agrees(name) ==
  LET g == Graph
      K == MkK(g, Facts)
  IN  IF IsViol(name) THEN Viol(name, K) = TableViol(name, g)
      ELSE LET t == TableConcl(name, g) f == Concl(name, K)
           IN  \/ f \cup g = t \cup g
               \/ name = "eq-ref" /\ f = t
LoneRules == {"prp-ap", "cls-thing", "cls-nothing1"}
FastAgrees_ ==
  IF AllRules THEN \A n \in (OwlRules \cup RdfsRules \cup ExtRules \cup ViolRules) \ LoneRules : Agrees(n)
  ELSE Agrees(Rule.name)
Fires_ ==
  drop = 0 => IF Rule.bad THEN [k \in DOMAIN Rule.who |-> Ground(Rule.who[k])] \in TableViol(Rule.name, Graph)
              ELSE Atoms(SetToSeq(Rule.head)) \subseteq TableConcl(Rule.name, Graph)
Distinct == Cardinality(ToSet(part)) = Cardinality(Rule.v)
\* the instance that is tested really depends on the premise that was dropped
Needed_ ==
  drop # 0 /\ Distinct /\ GroundT(Rule.body[drop]) \notin Graph =>
    Len(Rule.body) = 1 \/
    IF Rule.bad THEN [k \in DOMAIN Rule.who |-> Ground(Rule.who[k])] \notin TableViol(Rule.name, Graph)
                     \/ Rule.name \in {"cls-maxqc1", "cls-maxqc2", "cls-maxc1", "prp-npa1", "prp-npa2", "prp-adp", "cax-adc", "eq-diff2", "eq-diff3"}
    ELSE ~(Atoms(SetToSeq(Rule.head)) \subseteq TableConcl(Rule.name, Graph))
         \/ Rule.name \in {"cls-oo", "scm-int", "scm-uni", "cls-uni"}

----------------------------------------------------------------------------
Init == row \in Rows /\ part = <<>> /\ drop = 0
Alias == /\ part = <<>> /\ part' \in Partitions[Cardinality(Rule.v)]
         /\ UNCHANGED <<row, drop>>
Drop == /\ part # <<>> /\ drop = 0 /\ Len(Rule.body) > 1
        /\ drop' \in DOMAIN Rule.body
        /\ GroundT(Rule.body[drop']) \notin {GroundT(Rule.body[i]) : i \in DOMAIN Rule.body \ {drop'}}
        /\ UNCHANGED <<row, part>>
Next == Alias \/ Drop
Spec == Init /\ [][Next]_vars
Chosen(I) == part # <<>> => I

Merges == Cardinality(Rule.v) - Cardinality(ToSet(part))
EmitCase_ == Emit => PrintT("CASE " \o ToJson([rule |-> Rule.name, row |-> row, drop |-> drop, merges |-> Merges,
                                              g |-> Graph, v |-> {Ground(x) : x \in Rule.v}]))
FastAgrees == Chosen(FastAgrees_)
Fires      == Chosen(Fires_)
Needed     == Chosen(Needed_)
EmitCase   == Chosen(EmitCase_)
=============================================================================
