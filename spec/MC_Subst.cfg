SPECIFICATION Spec
INVARIANTS IsSubst Lemma VarsKept TwoSteps
CHECK_DEADLOCK FALSE
