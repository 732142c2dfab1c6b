SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS Shrinks Stable Local Own Triples
PROPERTY Saves
CHECK_DEADLOCK FALSE
