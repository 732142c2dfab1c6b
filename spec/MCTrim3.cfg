SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Shrinks Stable Local Own Triples
PROPERTY Saves
CHECK_DEADLOCK FALSE
