SPECIFICATION Spec
INVARIANT Linked
CHECK_DEADLOCK FALSE
