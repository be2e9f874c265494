SPECIFICATION Spec
INVARIANT Inv
INVARIANT EmitSim
CHECK_DEADLOCK FALSE
