SPECIFICATION Spec
INVARIANT Sane
PROPERTY Terminates
CHECK_DEADLOCK FALSE
