SPECIFICATION Spec
INVARIANTS OnceEach OnlyReachable Complete Emit
CHECK_DEADLOCK FALSE
