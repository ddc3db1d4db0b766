SPECIFICATION Spec
INVARIANT SysRoundTrip
INVARIANT Reported
INVARIANT InBounds
CHECK_DEADLOCK FALSE
