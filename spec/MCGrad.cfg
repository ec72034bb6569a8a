SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
