----------------------------- MODULE Violations -----------------------------
(***************************************************************************)
(* The inconsistency rules.  Viol(r, K) is the set of violated instances   *)
(* <<kind, resources involved>> of rule r.                                 *)
(***************************************************************************)
EXTENDS RuleSets

ViolRules == {"eq-diff1", "eq-diff2", "eq-diff3", "prp-irp", "prp-asyp", "prp-pdw", "prp-adp", "prp-npa1", "prp-npa2",
              "cls-nothing2", "cls-com", "cls-maxc1", "cls-maxqc1", "cls-maxqc2", "cax-dw", "cax-adc"}

Both(K, p, q) == P(K, p) \cap P(K, q)
MembersLists(K, cls, q) == UNION {Obj(K, x, q) : x \in Mem(K, cls)}
NPA(K, tgt) ==
  UNION {UNION {{<<x[2], p, y>> : y \in {z \in Obj(K, x[1], tgt) : Has(K, x[2], p, z)}} :
                p \in Obj(K, x[1], "owl:assertionProperty")} : x \in P(K, "owl:sourceIndividual")}

Viol(r, K) ==
  CASE r = "eq-diff1" -> Both(K, "owl:sameAs", "owl:differentFrom")
    [] r = "eq-diff2" -> UNION {Pairs(K, l) \cap P(K, "owl:sameAs") : l \in MembersLists(K, "owl:AllDifferent", "owl:members")}
    [] r = "eq-diff3" -> UNION {Pairs(K, l) \cap P(K, "owl:sameAs") : l \in MembersLists(K, "owl:AllDifferent", "owl:distinctMembers")}
    [] r = "prp-irp"  -> UNION {{<<x[1], p>> : x \in {y \in P(K, p) : y[1] = y[2]}} : p \in Mem(K, "owl:IrreflexiveProperty")}
    [] r = "prp-asyp" -> UNION {{<<p, x[1], x[2]>> : x \in {y \in P(K, p) : <<y[2], y[1]>> \in P(K, p)}}
                                : p \in Mem(K, "owl:AsymmetricProperty")}
    [] r = "prp-pdw"  -> UNION {{<<d[1], d[2], x[1], x[2]>> : x \in Both(K, d[1], d[2])} : d \in P(K, "owl:propertyDisjointWith")}
    [] r = "prp-adp"  -> UNION {UNION {{<<x[1], x[2], d[1], d[2]>> : x \in Both(K, d[1], d[2])} : d \in Pairs(K, l)}
                                : l \in MembersLists(K, "owl:AllDisjointProperties", "owl:members")}
    [] r = "prp-npa1" -> NPA(K, "owl:targetIndividual")
    [] r = "prp-npa2" -> NPA(K, "owl:targetValue")
    [] r = "cls-nothing2" -> {<<x>> : x \in Mem(K, "owl:Nothing")}
    [] r = "cls-com"  -> UNION {{<<d[1], d[2], x>> : x \in Mem(K, d[1]) \cap Mem(K, d[2])} : d \in P(K, "owl:complementOf")}
    [] r = "cls-maxc1" -> UNION {{<<x[1], u[2]>> : u \in SubjIn(P(K, x[2]), Mem(K, x[1]))} : x \in MaxC(K, "0")}
    [] r = "cls-maxqc1" -> UNION {{<<x[1], x[3], u[2]>> : u \in {w \in SubjIn(P(K, x[2]), Mem(K, x[1])) : w[2] \in Mem(K, x[3])}}
                                  : x \in MaxQ(K, "0")}
    [] r = "cls-maxqc2" -> UNION {{<<x[1], u[2]>> : u \in SubjIn(P(K, x[2]), Mem(K, x[1]))}
                                  : x \in {y \in MaxQ(K, "0") : y[3] = "owl:Thing"}}
    [] r = "cax-dw"   -> UNION {{<<d[1], d[2], x>> : x \in Mem(K, d[1]) \cap Mem(K, d[2])} : d \in P(K, "owl:disjointWith")}
    [] r = "cax-adc"  -> UNION {UNION {{<<x, d[1], d[2]>> : x \in Mem(K, d[1]) \cap Mem(K, d[2])} : d \in Pairs(K, l)}
                                : l \in MembersLists(K, "owl:AllDisjointClasses", "owl:members")}
    [] OTHER -> Assert(FALSE, <<"no such rule", r>>)
=============================================================================
