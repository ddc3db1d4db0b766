SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 Owns = {0, 1, 4, 5}
 Limit = 5
 Short = 1
 Long = 2
INVARIANT Unique Tiles Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
