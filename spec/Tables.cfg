SPECIFICATION Spec
INVARIANT Lossless
INVARIANT Minimal
INVARIANT RunsCover
CHECK_DEADLOCK FALSE
