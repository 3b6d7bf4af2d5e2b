SPECIFICATION Spec
INVARIANT Sane
INVARIANT Report
PROPERTY OnlyMarkersGoBack
PROPERTY OnlyAtLineStart
CHECK_DEADLOCK FALSE
