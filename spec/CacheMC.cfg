SPECIFICATION Spec
INVARIANTS Linear Remembered NoStop
PROPERTY Returns
CHECK_DEADLOCK FALSE
