SPECIFICATION Spec
INVARIANTS Sound Accounted
CHECK_DEADLOCK FALSE
