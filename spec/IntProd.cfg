INIT IInit
NEXT INext
CONSTRAINT Report
CHECK_DEADLOCK FALSE
