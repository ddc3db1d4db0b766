SPECIFICATION Spec
INVARIANT Prefixed
INVARIANT FirstSps
INVARIANT Holdable
CHECK_DEADLOCK FALSE
