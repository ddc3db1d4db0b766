SPECIFICATION Spec
INVARIANT MonthOK
INVARIANT EpochOK
INVARIANT ShortEnough
CHECK_DEADLOCK FALSE
