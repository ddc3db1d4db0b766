SPECIFICATION Spec
INVARIANT Reports Prefix CutFails
CHECK_DEADLOCK FALSE
