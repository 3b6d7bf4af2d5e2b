SPECIFICATION Spec
INVARIANTS Report Disjoint
CHECK_DEADLOCK FALSE
