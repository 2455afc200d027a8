CONSTANT Bug = "memo"
SPECIFICATION Spec
INVARIANTS Consistent Answers
PROPERTIES Separate Refines
CHECK_DEADLOCK FALSE
