SPECIFICATION Spec
VIEW view
INVARIANT Inv
INVARIANT RefusedKeeps
CHECK_DEADLOCK FALSE
