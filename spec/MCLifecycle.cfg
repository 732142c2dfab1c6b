SPECIFICATION Spec
CONSTANT Families = {"hooks", "errors", "one", "two"}
INVARIANTS Keeps NoLit Bounded Closed Requested Confluent Programs
PROPERTIES Snapshot Grows Ends
CHECK_DEADLOCK FALSE
