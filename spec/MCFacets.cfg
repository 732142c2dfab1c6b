SPECIFICATION Spec
INVARIANTS Interval Inapplicable Emit
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
