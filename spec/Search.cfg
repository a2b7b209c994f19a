SPECIFICATION Spec
INVARIANTS Bounded Over
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
