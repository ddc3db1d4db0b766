SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT Bounded
CHECK_DEADLOCK FALSE
