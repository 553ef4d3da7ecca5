SPECIFICATION GraphSpec
INVARIANT GraphInv
CHECK_DEADLOCK FALSE
