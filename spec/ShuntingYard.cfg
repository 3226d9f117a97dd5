SPECIFICATION Spec
INVARIANTS Sound Complete NeverWrong Reports Balance
CHECK_DEADLOCK FALSE
