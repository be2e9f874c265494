SPECIFICATION Spec
INVARIANT Traits
INVARIANT Relation
INVARIANT Unambiguous
INVARIANT Emit
CHECK_DEADLOCK FALSE
