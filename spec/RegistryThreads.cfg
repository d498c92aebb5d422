SPECIFICATION Spec
INVARIANT C19
CHECK_DEADLOCK FALSE
