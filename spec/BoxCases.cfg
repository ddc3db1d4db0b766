SPECIFICATION Spec
INVARIANT SizeRight RoundTrip
CHECK_DEADLOCK FALSE
