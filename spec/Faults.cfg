SPECIFICATION Spec
INVARIANTS Safe Quiet
CHECK_DEADLOCK FALSE
