SPECIFICATION Spec
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Inv
PROPERTY CallProps
PROPERTY MockProps
CHECK_DEADLOCK FALSE
