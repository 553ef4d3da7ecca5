SPECIFICATION Spec
VIEW view
INVARIANT Nested
CHECK_DEADLOCK FALSE
