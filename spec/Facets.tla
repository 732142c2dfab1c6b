------------------------------- MODULE Facets -------------------------------
(***************************************************************************)
(* Restricted datatypes (OWL 2 datatype restrictions): which values of the *)
(* base type a set of facets admits.                                       *)
(*                                                                         *)
(* Values:  [kind |-> "num", v |-> int]      ordered values, on some scale *)
(*          [kind |-> "nan"]                 not comparable                *)
(*          [kind |-> "text", chars |-> <<..>>, lang |-> <<subtags>>]      *)
(*          [kind |-> "octets", chars |-> <<..>>]                          *)
(* Facets:  [f |-> name, v |-> int]  [f |-> "pattern", re |-> regex]       *)
(*          [f |-> "langRange", range |-> <<subtags>>]                     *)
(* a facet also says whether its literal is usable (ok).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Datatypes

Ordered == IntegerFamily \cup {"xsd:decimal", "xsd:float", "xsd:double", "xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time"}
Octets  == {"xsd:hexBinary", "xsd:base64Binary"}
Texts   == StringFamily \cup {"xsd:anyURI"}
Facetable == Ordered \cup Octets \cup Texts \cup {"rdf:PlainLiteral"}

Applicable(base) ==
  CASE base \in Ordered -> {"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}
    [] base \in Octets  -> {"length", "minLength", "maxLength"}
    [] base \in Texts   -> {"length", "minLength", "maxLength", "pattern"}
    [] base = "rdf:PlainLiteral" -> {"length", "minLength", "maxLength", "pattern", "langRange"}
    [] OTHER -> {}

(* ---- regular expressions: "chr" c, "any", "set" cs, "not" cs, "cat" a b, "alt" a b, "star" a, "opt" a, "eps" *)
RECURSIVE Ends(_, _, _), Closure(_, _, _, _)
\* the positions where a match of r that begins at i may end
Ends(r, s, i) ==
  CASE r.k = "eps" -> {i}
    [] r.k = "chr" -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.k = "any" -> IF i <= Len(s) /\ s[i] \notin {"\n", "\r"} THEN {i + 1} ELSE {}
    [] r.k = "set" -> IF i <= Len(s) /\ \E j \in DOMAIN r.cs : s[i] = r.cs[j] THEN {i + 1} ELSE {}
    [] r.k = "not" -> IF i <= Len(s) /\ \A j \in DOMAIN r.cs : s[i] # r.cs[j] THEN {i + 1} ELSE {}
    [] r.k = "cat" -> UNION {Ends(r.b, s, j) : j \in Ends(r.a, s, i)}
    [] r.k = "alt" -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
    [] r.k = "opt" -> {i} \cup Ends(r.a, s, i)
    [] r.k = "star" -> Closure(r.a, s, {i}, {i})
Closure(r, s, new, all) ==
  LET next == UNION {Ends(r, s, j) : j \in new} \ all
  IN  IF next = {} THEN all ELSE Closure(r, s, next, all \cup next)
\* a pattern describes the whole lexical form
Matches(r, s) == Len(s) + 1 \in Ends(r, s, 1)

(* ---- language ranges: extended filtering, RFC 4647, 3.3.2 (in lower case) *)
RECURSIVE Filter(_, _, _, _)
Filter(range, tag, i, j) ==
  IF i > Len(range) THEN TRUE
  ELSE IF range[i] = "*" THEN Filter(range, tag, i + 1, j)
  ELSE IF j > Len(tag) THEN FALSE
  ELSE IF range[i] = tag[j].t THEN Filter(range, tag, i + 1, j + 1)
  ELSE IF tag[j].single THEN FALSE
  ELSE Filter(range, tag, i, j + 1)
\* tag: a sequence of subtags, each with whether it is a singleton; empty: no language
InRange(range, tag) ==
  /\ Len(tag) > 0 /\ Len(range) > 0
  /\ range[1] = "*" \/ range[1] = tag[1].t
  /\ Filter(range, tag, 2, 2)

Satisfies(x, fc) ==
  CASE fc.f = "minInclusive" -> x.kind = "num" /\ x.v >= fc.v
    [] fc.f = "maxInclusive" -> x.kind = "num" /\ x.v <= fc.v
    [] fc.f = "minExclusive" -> x.kind = "num" /\ x.v > fc.v
    [] fc.f = "maxExclusive" -> x.kind = "num" /\ x.v < fc.v
    [] fc.f = "length"       -> Len(x.chars) = fc.v
    [] fc.f = "minLength"    -> Len(x.chars) >= fc.v
    [] fc.f = "maxLength"    -> Len(x.chars) <= fc.v
    [] fc.f = "pattern"      -> Matches(fc.re, x.chars)
    [] fc.f = "langRange"    -> InRange(fc.range, x.lang)

\* facets whose value is unusable and facets that do not apply to the base are ignored
Effective(base, facets) == {i \in DOMAIN facets : facets[i].ok /\ facets[i].f \in Applicable(base)}
InDatatype(x, base, facets) == \A i \in Effective(base, facets) : Satisfies(x, facets[i])

\* the datatype of a literal is the base or derived from it
Below(d, base) == d = base \/ base \in SupersIn(Derived, d)
\* (strings are plain literals, too, but implementations need not use that)
MayBelow(d, base) == Below(d, base) \/ (base = "rdf:PlainLiteral" /\ d \in {"rdf:langString"} \cup StringFamily)
=============================================================================
