SPECIFICATION ModelSpec
INVARIANTS Function Nested
PROPERTY KeptStays
CHECK_DEADLOCK FALSE
