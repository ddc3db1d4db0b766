SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
