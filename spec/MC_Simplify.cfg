SPECIFICATION Spec
INVARIANTS ValueKept RefusedWithReason NoNewVariable PlacesHold Done
CHECK_DEADLOCK FALSE
