SPECIFICATION Spec
INVARIANT Linearizable
INVARIANT Quiet
INVARIANT NoRace
INVARIANT Counts
INVARIANT NoDeadlock
INVARIANT Emit
CHECK_DEADLOCK FALSE
