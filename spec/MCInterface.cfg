SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
