SPECIFICATION Spec
CONSTANT MaxKeys = 3
INVARIANTS Agree Matching
PROPERTIES Progress
CHECK_DEADLOCK FALSE
