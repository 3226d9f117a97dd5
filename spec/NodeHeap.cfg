SPECIFICATION Spec
INVARIANTS OwnedOnce Linked NothingLost StillThere ValueSemantics
PROPERTY Ends
CHECK_DEADLOCK FALSE
