----------------------------- MODULE FacetTrace -----------------------------
(***************************************************************************)
(* Validates recorded expansions with restricted datatypes.  A case has    *)
(* defs (each with its IRI, base, facets and whether the definition is     *)
(* well formed), lits (each with its datatype and value), typed (pairs     *)
(* literal, datatype in the output), users (for each literal the           *)
(* definitions it is required to have by an owl:allValuesFrom), and errors *)
(* (the datatype of each message and the literals it may mean).                            *)
(***************************************************************************)
EXTENDS Facets, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, step
C == Cases[c]
\* definitions whose meaning is not clear (facets of another value space) are not judged
Defs == {d \in DOMAIN C.defs : ~C.defs[d].loose}
Lits == DOMAIN C.lits
\* a definition without any restriction list is the base type, or nothing
Usable(d) == C.defs[d].wf /\ C.defs[d].base \in Facetable
Unlisted(d) == ~C.defs[d].listed
In(l, d) == InDatatype(C.lits[l].value, C.defs[d].base, C.defs[d].facets)
Own(l) == {e \in Defs : C.defs[e].iri = C.lits[l].dt}
OfBase(l, d) ==
  IF Own(l) = {} THEN C.lits[l].ok /\ C.lits[l].firm /\ Below(C.lits[l].dt, C.defs[d].base)
  ELSE \E e \in Own(l) : Usable(e) /\ In(l, e) /\ (e = d \/ Below(C.defs[e].base, C.defs[d].base))
MayOfBase(l, d) ==
  IF Own(l) = {} THEN C.lits[l].ok /\ MayBelow(C.lits[l].dt, C.defs[d].base) ELSE OfBase(l, d)
Typed(l, d)  == \E i \in DOMAIN C.typed : C.typed[i] = <<C.lits[l].t, C.defs[d].iri>>
Wanted(l, d) == \E i \in DOMAIN C.users : C.users[i] = <<C.lits[l].t, C.defs[d].iri>>
\* a message names a datatype and (by its lexical form) one of some literals
Error(l, d)  == \E i \in DOMAIN C.errors : C.errors[i][1] = C.defs[d].iri /\ C.lits[l].t \in {C.errors[i][2][j] : j \in DOMAIN C.errors[i][2]}
\* literals with the same value say the same
Same(l, m)   == C.lits[l].key = C.lits[m].key

Missing == {<<C.lits[l].t, C.defs[d].iri>> : <<l, d>> \in {x \in Lits \X Defs :
              Usable(x[2]) /\ ~Unlisted(x[2]) /\ OfBase(x[1], x[2]) /\ In(x[1], x[2]) /\ ~Typed(x[1], x[2])}}
May(l, d) ==
  \/ Usable(d) /\ \E m \in Lits : Same(l, m) /\ MayOfBase(m, d) /\ In(m, d)
  \* what an allValuesFrom says of other values is not a matter of facets
  \/ \E m \in Lits : Same(l, m) /\ Wanted(m, d) /\ (~Usable(d) \/ ~OfBase(m, d))
Wrong == {<<C.lits[l].t, C.defs[d].iri>> : <<l, d>> \in {x \in Lits \X Defs : Typed(x[1], x[2]) /\ ~May(x[1], x[2])}}
\* an unlisted definition does not depend on anything else
Unlist == {C.defs[d].iri : d \in {d \in Defs : Usable(d) /\ Unlisted(d) /\
              \E l, m \in Lits : OfBase(l, d) /\ OfBase(m, d) /\ Typed(l, d) /\ ~Typed(m, d)
                   \* (apart from what an allValuesFrom says of it, if the definition is ignored)
                   /\ ~\E k \in Lits : Same(k, l) /\ Wanted(k, d)}}
NoError == {<<C.lits[l].t, C.defs[d].iri>> : <<l, d>> \in {x \in Lits \X Defs :
              Wanted(x[1], x[2]) /\ Usable(x[2]) /\ OfBase(x[1], x[2]) /\ ~In(x[1], x[2]) /\ ~Error(x[1], x[2])}}
Violates(l, d) ==
  \E m \in Lits : Same(l, m) /\ Wanted(m, d) /\ ~In(m, d) /\ \E k \in Lits : Same(k, m) /\ MayOfBase(k, d)
FalseError == {C.errors[i] : i \in {i \in DOMAIN C.errors :
                 \E d \in Defs : C.defs[d].iri = C.errors[i][1] /\
                   ~(Usable(d) /\ \E l \in Lits : C.lits[l].t \in {C.errors[i][2][j] : j \in DOMAIN C.errors[i][2]} /\ Violates(l, d))}}
Verdict == [case |-> C.id, missing |-> Missing, wrong |-> Wrong, unlisted |-> Unlist, noerror |-> NoError, falseerror |-> FalseError]
Init == c \in DOMAIN Cases /\ step = 0
Next == step = 0 /\ step' = 1 /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, step>>
=============================================================================
