SPECIFICATION Spec
INVARIANTS OneMap EqualIsMap
PROPERTY Frame
CHECK_DEADLOCK FALSE
