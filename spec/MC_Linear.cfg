SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
