CONSTANT Bug = "early"
SPECIFICATION Spec
INVARIANTS Consistent Answers
PROPERTIES Separate Refines
CHECK_DEADLOCK FALSE
