SPECIFICATION Spec
INVARIANTS OnceEach OnlyReachable Complete Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
