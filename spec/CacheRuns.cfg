SPECIFICATION Spec
INVARIANTS Linear Remembered Written
CHECK_DEADLOCK FALSE
