SPECIFICATION Spec
INVARIANT Sane
VIEW View
CHECK_DEADLOCK FALSE
