SPECIFICATION Spec
CONSTANTS Depth = 4
 Lone = FALSE
INVARIANT C19
CHECK_DEADLOCK FALSE
