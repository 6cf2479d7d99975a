SPECIFICATION Spec
INVARIANT Checks
CHECK_DEADLOCK FALSE
