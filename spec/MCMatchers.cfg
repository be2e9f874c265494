SPECIFICATION Spec
ACTION_CONSTRAINT EmitA
INVARIANT Inv
INVARIANT EmitInit
CHECK_DEADLOCK FALSE
