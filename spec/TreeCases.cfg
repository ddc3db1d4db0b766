SPECIFICATION Spec
INVARIANTS Tiles Agree
CHECK_DEADLOCK FALSE
