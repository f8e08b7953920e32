INIT TInit
NEXT TNext
INVARIANT Walked
CHECK_DEADLOCK FALSE
