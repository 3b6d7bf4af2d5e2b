SPECIFICATION Spec
INVARIANTS Unique Backward
CHECK_DEADLOCK FALSE
