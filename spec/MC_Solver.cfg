SPECIFICATION Spec
INVARIANTS Sound Start Limit
PROPERTIES Descent Kept Ends
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
