SPECIFICATION Spec
INVARIANT Last
INVARIANT Emit
CHECK_DEADLOCK FALSE
