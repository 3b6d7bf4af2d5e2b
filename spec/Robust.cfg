SPECIFICATION Spec
INVARIANT Sane
INVARIANT Report
CHECK_DEADLOCK FALSE
