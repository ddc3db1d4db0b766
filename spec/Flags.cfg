SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT WireInj
INVARIANT NotFull
CHECK_DEADLOCK FALSE
