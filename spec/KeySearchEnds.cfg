SPECIFICATION Spec
CONSTANT MaxKeys = 2
INVARIANTS Agree Matching
PROPERTIES Progress Ends
CHECK_DEADLOCK FALSE
