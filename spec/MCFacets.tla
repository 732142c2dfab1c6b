------------------------------ MODULE MCFacets ------------------------------
(***************************************************************************)
(* Exhaustive facet combinations over small scales, as cases for the       *)
(* implementation, and properties of the facets themselves.                *)
(***************************************************************************)
EXTENDS Facets, Json, IOUtils
VARIABLES fam, combo, done
vars == <<fam, combo, done>>
Bounds == {"-", "1", "2"}
OrderKeys == <<"minInclusive", "minExclusive", "maxInclusive", "maxExclusive">>
LenKeys   == <<"length", "minLength", "maxLength">>
Keys == IF fam = "order" THEN OrderKeys ELSE LenKeys
ToInt(b) == CASE b = "1" -> 1 [] b = "2" -> 2
FacetsOf == LET S == {i \in DOMAIN Keys : combo[i] # "-"}
            IN  [i \in 1..Cardinality(S) |->
                   LET k == CHOOSE k \in S : Cardinality({j \in S : j <= k}) = i
                   IN  [f |-> Keys[k], v |-> ToInt(combo[k]), ok |-> TRUE]]
Value(n) == IF fam = "order" THEN [kind |-> "num", v |-> n] ELSE [kind |-> "text", chars |-> [i \in 1..n |-> "a"], lang |-> <<>>]
Base == IF fam = "order" THEN "xsd:integer" ELSE "xsd:string"
Admitted == {n \in 0..4 : InDatatype(Value(n), Base, FacetsOf)}

Init == /\ fam \in {"order", "length"}
        /\ combo \in (IF fam = "order" THEN [1..4 -> Bounds] ELSE [1..3 -> Bounds])
        /\ done = FALSE
\* one facet more
Next == /\ \E i \in DOMAIN combo : \E b \in Bounds \ {"-"} : combo[i] = "-" /\ combo' = [combo EXCEPT ![i] = b]
        /\ UNCHANGED <<fam, done>>
Spec == Init /\ [][Next]_vars
\* a facet more never admits more values
Shrinks == [][Admitted' \subseteq Admitted]_vars
\* the facets are what they say, on the scale
Interval ==
  fam = "order" =>
    Admitted = {n \in 0..4 : /\ combo[1] # "-" => n >= ToInt(combo[1])
                             /\ combo[2] # "-" => n > ToInt(combo[2])
                             /\ combo[3] # "-" => n <= ToInt(combo[3])
                             /\ combo[4] # "-" => n < ToInt(combo[4])}
Inapplicable == InDatatype(Value(0), "xsd:boolean", FacetsOf)
Emit == PrintT("COMBO " \o ToJson([fam |-> fam, combo |-> combo, admitted |-> Admitted]))

\* regular expressions and language ranges against their definitions
Chr(c) == [k |-> "chr", c |-> c]
Star(a) == [k |-> "star", a |-> a]
Cat(a, b) == [k |-> "cat", a |-> a, b |-> b]
Alt(a, b) == [k |-> "alt", a |-> a, b |-> b]
Opt(a) == [k |-> "opt", a |-> a]
AnyChr == [k |-> "any"]
RegexLaws(r, s) ==
  /\ Matches(Star(r), s) <=> (Len(s) = 0 \/ \E i \in 1..Len(s) : Matches(r, SubSeq(s, 1, i)) /\ Matches(Star(r), SubSeq(s, i + 1, Len(s))))
  /\ Matches(Opt(r), s) <=> (Len(s) = 0 \/ Matches(r, s))
  /\ Matches(Cat(r, AnyChr), s) <=> (Len(s) > 0 /\ Matches(r, SubSeq(s, 1, Len(s) - 1)))
Strings == UNION {[1..n -> {"a", "b"}] : n \in 0..4}
SampleRegexes == {Chr("a"), AnyChr, Star(Chr("b")), Cat(Chr("a"), Star(AnyChr)), Alt(Cat(Chr("a"), Chr("b")), Chr("b")), Opt(Cat(Chr("a"), Chr("a"))),
                  Star(Alt(Chr("a"), Cat(Chr("b"), Chr("b"))))}
T(t) == [t |-> t, single |-> FALSE]
X(t) == [t |-> t, single |-> TRUE]
ASSUME \A r \in SampleRegexes, s \in Strings : RegexLaws(r, s)
\* the examples of RFC 4647
ASSUME LET r == <<"de", "*", "de">>
           yes == {<<T("de"), T("de")>>, <<T("de"), T("latn"), T("de")>>, <<T("de"), T("latf"), T("de")>>, <<T("de"), T("de"), X("x"), T("goethe")>>,
                   <<T("de"), T("latn"), T("de"), T("1996")>>, <<T("de"), T("deva"), T("de")>>}
           no == {<<T("de")>>, <<T("de"), X("x"), T("de")>>, <<T("de"), T("deva")>>, <<>>}
       IN  (\A t \in yes : InRange(r, t)) /\ (\A t \in no : ~InRange(r, t))
=============================================================================
