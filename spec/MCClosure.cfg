SPECIFICATION Spec
INVARIANTS Below Confluent Idempotent Monotone Bounded
CHECK_DEADLOCK FALSE
