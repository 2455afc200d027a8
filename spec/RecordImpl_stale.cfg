CONSTANT Bug = "stale"
SPECIFICATION Spec
INVARIANTS Consistent Answers
PROPERTIES Separate Refines
CHECK_DEADLOCK FALSE
