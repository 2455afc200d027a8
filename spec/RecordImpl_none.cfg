CONSTANT Bug = "none"
SPECIFICATION Spec
INVARIANTS Consistent Answers
PROPERTIES Separate Refines
CHECK_DEADLOCK FALSE
