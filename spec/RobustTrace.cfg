SPECIFICATION SessionSpec
INVARIANT SessionInv
CHECK_DEADLOCK FALSE
