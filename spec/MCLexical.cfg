SPECIFICATION Spec
INVARIANTS DerivedIsSubset DerivedSameValue NegPos ByteUByte StampIsDateTime FractionParts OrderTotal
CHECK_DEADLOCK FALSE
