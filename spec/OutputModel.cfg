SPECIFICATION ModelSpec
INVARIANT ModelInv
CHECK_DEADLOCK FALSE
