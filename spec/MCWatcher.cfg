SPECIFICATION Spec
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Inv
PROPERTY Step
CHECK_DEADLOCK FALSE
