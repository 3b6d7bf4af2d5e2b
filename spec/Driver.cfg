SPECIFICATION Spec
INVARIANTS Clean Stops
CHECK_DEADLOCK FALSE
