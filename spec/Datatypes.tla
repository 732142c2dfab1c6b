----------------------------- MODULE Datatypes ------------------------------
(***************************************************************************)
(* The datatype map: supported datatypes, derivation (XSD 1.1), and which  *)
(* value spaces are disjoint.                                              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

IntegerFamily ==
  {"xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:negativeInteger",
   "xsd:positiveInteger", "xsd:long", "xsd:int", "xsd:short", "xsd:byte", "xsd:unsignedLong",
   "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte"}
StringFamily ==
  {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN"}
GFamily == {"xsd:gYearMonth", "xsd:gMonthDay", "xsd:gYear", "xsd:gDay", "xsd:gMonth"}
Common ==
  IntegerFamily \cup StringFamily \cup
  {"xsd:decimal", "xsd:float", "xsd:double", "xsd:boolean", "xsd:hexBinary", "xsd:base64Binary", "xsd:anyURI",
   "xsd:dateTimeStamp", "xsd:dateTime", "xsd:time", "xsd:date",
   "rdfs:Literal", "rdf:XMLLiteral", "rdf:HTML", "rdf:langString"}
OwlSupported  == Common \cup {"rdf:PlainLiteral"}
RdfsSupported == Common \cup GFamily

\* direct derivation
Derived ==
  { <<"xsd:integer", "xsd:decimal">>,
    <<"xsd:nonPositiveInteger", "xsd:integer">>, <<"xsd:negativeInteger", "xsd:nonPositiveInteger">>,
    <<"xsd:nonNegativeInteger", "xsd:integer">>, <<"xsd:positiveInteger", "xsd:nonNegativeInteger">>,
    <<"xsd:long", "xsd:integer">>, <<"xsd:int", "xsd:long">>, <<"xsd:short", "xsd:int">>, <<"xsd:byte", "xsd:short">>,
    <<"xsd:unsignedLong", "xsd:nonNegativeInteger">>, <<"xsd:unsignedInt", "xsd:unsignedLong">>,
    <<"xsd:unsignedShort", "xsd:unsignedInt">>, <<"xsd:unsignedByte", "xsd:unsignedShort">>,
    <<"xsd:normalizedString", "xsd:string">>, <<"xsd:token", "xsd:normalizedString">>,
    <<"xsd:language", "xsd:token">>, <<"xsd:Name", "xsd:token">>, <<"xsd:NMTOKEN", "xsd:token">>,
    <<"xsd:NCName", "xsd:Name">>, <<"xsd:dateTimeStamp", "xsd:dateTime">> }
ExtDerived == Derived \cup {<<"xsd:decimal", "owl:rational">>}

RECURSIVE SupersIn(_, _)
SupersIn(rel, d) ==
  LET up == {x[2] : x \in {y \in rel : y[1] = d}}
  IN  up \cup UNION {SupersIn(rel, u) : u \in up}

\* the primitive value space a datatype lives in
Space(d) ==
  CASE d \in IntegerFamily \cup {"xsd:decimal", "owl:rational"} -> "decimal"
    [] d \in StringFamily \cup {"rdf:PlainLiteral", "rdf:langString"} -> "plain"
    [] d \in {"xsd:dateTime", "xsd:dateTimeStamp"} -> "dateTime"
    [] d = "rdfs:Literal" -> "any"
    [] OTHER -> d
\* value spaces that certainly have no common value
Disjoint(a, b) ==
  \/ /\ Space(a) # Space(b)
     /\ "any" \notin {Space(a), Space(b)}
     /\ {Space(a), Space(b)} # {"rdf:XMLLiteral", "rdf:HTML"}
  \/ {a, b} \in {{"xsd:string", "rdf:langString"}, {"xsd:normalizedString", "rdf:langString"}}

\* primitive ("top level") datatypes whose disjointness is stated when both are used
TopLevel ==
  {"xsd:anyURI", "xsd:base64Binary", "xsd:boolean", "xsd:dateTime", "xsd:decimal", "xsd:double", "xsd:float",
   "xsd:hexBinary", "xsd:string", "rdf:PlainLiteral", "rdf:XMLLiteral"}
MustBeDisjoint(a, b) ==
  /\ a \in TopLevel /\ b \in TopLevel /\ a # b
  /\ Disjoint(a, b)
  /\ {a, b} # {"rdf:PlainLiteral", "rdf:XMLLiteral"}      \* true, but not stated by the implementation

ASSUME \A d \in Common : d \notin SupersIn(Derived, d)
ASSUME \A x \in ExtDerived : Space(x[1]) = Space(x[2])
ASSUME Cardinality({{a, b} : <<a, b>> \in {p \in TopLevel \X TopLevel : MustBeDisjoint(p[1], p[2])}}) = 53
=============================================================================
