SPECIFICATION Spec
INVARIANT Exact
INVARIANT Agree
INVARIANT Sized
CHECK_DEADLOCK FALSE
