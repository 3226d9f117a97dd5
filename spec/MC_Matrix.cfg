SPECIFICATION Spec
INVARIANTS DetAgrees InverseAgrees Algebra Definite
CHECK_DEADLOCK FALSE
