SPECIFICATION Spec
INVARIANT OneSource
CHECK_DEADLOCK FALSE
