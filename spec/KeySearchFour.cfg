SPECIFICATION Spec
CONSTANT MaxKeys = 4
INVARIANTS Agree Matching
PROPERTIES Progress
CHECK_DEADLOCK FALSE
