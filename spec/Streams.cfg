SPECIFICATION Spec
INVARIANT Safe
INVARIANT Quiet
CHECK_DEADLOCK FALSE
