SPECIFICATION Spec
INVARIANT Emit
INVARIANT Holds
CHECK_DEADLOCK FALSE
