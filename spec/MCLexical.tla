----------------------------- MODULE MCLexical ------------------------------
(***************************************************************************)
(* Model checking of the lexical specification itself: every string over   *)
(* small alphabets up to a length.  The machine appends one character at a *)
(* time.                                                                   *)
(***************************************************************************)
EXTENDS Lexical, Datatypes

VARIABLES alpha, s
vars == <<alpha, s>>
Alphabets == <<{"+", "-", "0", "1", "2", "9"}, {"+", "-", ".", "0", "5", "e"}, {"a", "1", ".", "-", ":", " "},
               {" ", "a", "TAB", "U+00E9"}, {"0", "2", "-", "Z", "3"},
               {"+", "-", "0", "1", "/"}>>
MaxLen == <<4, 4, 4, 4, 5, 5>>
Init == alpha \in DOMAIN Alphabets /\ s = <<>>
Next == Len(s) < MaxLen[alpha] /\ \E ch \in Alphabets[alpha] : s' = Append(s, ch) /\ UNCHANGED alpha
Spec == Init /\ [][Next]_vars

Ok(d) == Judgement(d, s).ok
Val_(d) == Judgement(d, s).val
\* (the table of derivations of the datatype map and the grammars were written independently)
Modelled == {"xsd:decimal"} \cup DOMAIN Bounds \cup {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language",
             "xsd:Name", "xsd:NCName", "xsd:NMTOKEN", "xsd:dateTime", "xsd:dateTimeStamp"}
DerivedIsSubset == \A x \in Derived : x[1] \in Modelled /\ x[2] \in Modelled /\ Ok(x[1]) => Ok(x[2])
DerivedSameValue == \A x \in Derived : x[1] \in DOMAIN Bounds /\ Ok(x[1]) => Val_(x[1]) = Val_(x[2])
NegPos == /\ Ok("xsd:integer") => (Ok("xsd:negativeInteger") # Ok("xsd:nonNegativeInteger"))
                                  /\ (Ok("xsd:positiveInteger") # Ok("xsd:nonPositiveInteger"))
          /\ Ok("xsd:decimal") => Ok("xsd:float") /\ Ok("xsd:double") /\ Val_("xsd:decimal") = Val_("xsd:double")
ByteUByte == Ok("xsd:byte") /\ Ok("xsd:nonNegativeInteger") => Ok("xsd:unsignedByte")
StampIsDateTime == Ok("xsd:dateTimeStamp") => Ok("xsd:dateTime") /\ Val_("xsd:dateTimeStamp") = Val_("xsd:dateTime")
\* a fraction is an integer over a positive integer, and nothing else is one
FractionParts ==
  Ok("owl:rational") <=> \E i \in 2..(Len(s) - 1) :
    /\ s[i] = "/" /\ Judgement("xsd:integer", SubSeq(s, 1, i - 1)).ok
    /\ Judgement("xsd:positiveInteger", SubSeq(s, i + 1, Len(s))).ok /\ s[i + 1] # "+"
OrderTotal == Ok("xsd:decimal") => LET x == Number(s) IN NumLE(x, x) /\ (NumLT(x, Zero) = (x.neg)) /\ (NumLT(x, One) # NumLE(One, x))
=============================================================================
