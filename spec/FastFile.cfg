SPECIFICATION Spec
INVARIANT Clean
INVARIANT Owned
CHECK_DEADLOCK FALSE
