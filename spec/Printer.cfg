SPECIFICATION Spec
INVARIANTS Faithful RotOk
CHECK_DEADLOCK FALSE
