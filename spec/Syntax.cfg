SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANT Completable
INVARIANT Emit
CHECK_DEADLOCK FALSE
