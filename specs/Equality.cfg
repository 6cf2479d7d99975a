SPECIFICATION Spec
INVARIANT Checks
INVARIANT Laws
CHECK_DEADLOCK FALSE
