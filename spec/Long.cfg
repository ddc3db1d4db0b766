SPECIFICATION Spec
INVARIANTS Sound Sharp
CHECK_DEADLOCK FALSE
