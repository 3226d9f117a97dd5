SPECIFICATION Spec
INVARIANTS First Second Mixed Numeric
CHECK_DEADLOCK FALSE
