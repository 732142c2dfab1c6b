SPECIFICATION Spec
INVARIANTS Bounded Exact Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
