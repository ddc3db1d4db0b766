SPECIFICATION Spec
INVARIANTS Alone Sound
CHECK_DEADLOCK FALSE
