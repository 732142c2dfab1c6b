------------------------------ MODULE RDFGraph ------------------------------
(***************************************************************************)
(* RDF graphs as finite sets of triples <<s, p, o>>.  Terms are strings:   *)
(* prefixed names for IRIs ("rdf:type"), "_:x" for blank nodes and Turtle  *)
(* like literals ("\"1\"^^xsd:int").  What a rule needs to know about a    *)
(* literal is a separate table of facts, since TLC strings are opaque.     *)
(* A graph under evaluation is a record K: its triples, a predicate index, *)
(* the extension of every class, and the facts about literals.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt


\* predicate -> set of <<subject, object>>
Index(g) ==
  LET ps == {t[2] : t \in g}
  IN  [p \in ps |-> {<<t[1], t[3]>> : t \in {u \in g : u[2] = p}}]

\* class -> set of members
Members(ix) ==
  IF "rdf:type" \notin DOMAIN ix THEN [c \in {} |-> {}] ELSE
  LET ty == ix["rdf:type"]
      cs == {x[2] : x \in ty}
  IN  [c \in cs |-> {x[1] : x \in {y \in ty : y[2] = c}}]

MkK(g, lit) ==
  LET ix  == TLCEval(Index(g))
      mem == TLCEval(Members(ix))
  IN  [g |-> g, ix |-> ix, mem |-> mem, lit |-> lit]

P(K, p)      == IF p \in DOMAIN K.ix THEN K.ix[p] ELSE {}
Mem(K, c)    == IF c \in DOMAIN K.mem THEN K.mem[c] ELSE {}
Obj(K, s, p) == {x[2] : x \in {y \in P(K, p) : y[1] = s}}
Sub(K, p, o) == {x[1] : x \in {y \in P(K, p) : y[2] = o}}
Has(K, s, p, o) == <<s, o>> \in P(K, p)
Terms(g)     == UNION {{t[1], t[2], t[3]} : t \in g}

IsLit(K, x)  == x \in DOMAIN K.lit
\* the number a literal denotes, as far as the rules care: "0", "1", "-"
Num(K, x)    == IF IsLit(K, x) THEN K.lit[x].num ELSE "-"

(***************************************************************************)
(* RDF collections.  Cells that are sameAs one another share their         *)
(* contents, so a cell may have several rdf:first and rdf:rest values;     *)
(* LIST[h, e1 .. en] of the W3C document then holds for every choice.      *)
(***************************************************************************)
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(K, l, seen) ==
  IF l = "rdf:nil" \/ l \in seen THEN {}
  ELSE Obj(K, l, "rdf:first")
       \cup UNION {ItemsFrom(K, r, seen \cup {l}) : r \in Obj(K, l, "rdf:rest")}
Items(K, l) == ItemsFrom(K, l, {})

\* <<a, b>> such that a and b are members at different positions of the list
RECURSIVE PairsFrom(_, _, _)
PairsFrom(K, l, seen) ==
  IF l = "rdf:nil" \/ l \in seen THEN {}
  ELSE LET rs   == Obj(K, l, "rdf:rest")
           tail == UNION {ItemsFrom(K, r, seen \cup {l}) : r \in rs}
       IN  (Obj(K, l, "rdf:first") \X tail)
           \cup UNION {PairsFrom(K, r, seen \cup {l}) : r \in rs}
Pairs(K, l) == PairsFrom(K, l, {})

\* resources that are members of every class of the list
RECURSIVE MeetFrom(_, _, _)
MeetFrom(K, l, seen) ==
  LET here == UNION {Mem(K, c) : c \in Obj(K, l, "rdf:first")}
      rs   == Obj(K, l, "rdf:rest")
  IN  IF l \in seen \/ here = {} THEN {}
      ELSE IF "rdf:nil" \in rs THEN here
      ELSE here \cap UNION {MeetFrom(K, r, seen \cup {l}) : r \in rs}
Meet(K, l) == IF l = "rdf:nil" THEN {} ELSE MeetFrom(K, l, {})

\* <<u, v>> connected by the chain of the properties of the list
Compose(A, B) ==
  LET mids == {x[1] : x \in B}
      succ == TLCEval([m \in mids |-> {y[2] : y \in {x \in B : x[1] = m}}])
  IN  UNION {{<<x[1], z>> : z \in succ[x[2]]} : x \in {y \in A : y[2] \in mids}}
RECURSIVE ChainFrom(_, _, _)
ChainFrom(K, l, seen) ==
  LET here == UNION {P(K, p) : p \in Obj(K, l, "rdf:first")}
      rs   == Obj(K, l, "rdf:rest")
  IN  IF l \in seen \/ here = {} THEN {}
      ELSE IF "rdf:nil" \in rs THEN here
      ELSE Compose(here, UNION {ChainFrom(K, r, seen \cup {l}) : r \in rs})
Chain(K, l) == IF l = "rdf:nil" THEN {} ELSE ChainFrom(K, l, {})

\* <<x, y>> in M \X M that share a value for every property of the list
ShareP(K, p, M) ==
  LET pp == {x \in P(K, p) : x[1] \in M}
  IN  UNION {{<<x[1], y[1]>> : y \in {z \in pp : z[2] = x[2]}} : x \in pp}
RECURSIVE ShareFrom(_, _, _, _)
ShareFrom(K, l, M, seen) ==
  LET here == UNION {ShareP(K, p, M) : p \in Obj(K, l, "rdf:first")}
      rs   == Obj(K, l, "rdf:rest")
  IN  IF l \in seen \/ here = {} THEN {}
      ELSE IF "rdf:nil" \in rs THEN here
      ELSE here \cap UNION {ShareFrom(K, r, M, seen \cup {l}) : r \in rs}
Share(K, l, M) == IF l = "rdf:nil" THEN {} ELSE ShareFrom(K, l, M, {})
=============================================================================
