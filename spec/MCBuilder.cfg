SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Limited
INVARIANT Monotone
INVARIANT Commute
INVARIANT Bounded
INVARIANT Emit
CHECK_DEADLOCK FALSE
