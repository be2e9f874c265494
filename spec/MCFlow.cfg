SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
