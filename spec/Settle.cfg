SPECIFICATION Spec
INVARIANTS Fits Least Bounded
PROPERTIES Grows Ends
CHECK_DEADLOCK FALSE
