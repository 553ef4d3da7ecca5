SPECIFICATION HistSpec
INVARIANT HistInv
CHECK_DEADLOCK FALSE
