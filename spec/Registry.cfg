SPECIFICATION Spec
INVARIANT OneBitMatters
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
