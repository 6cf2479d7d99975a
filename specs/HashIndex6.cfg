SPECIFICATION Spec
CONSTANT Keys = {1, 2, 3, 4, 5, 6}
CONSTANT HashSets <- Hash2
INVARIANT Abstract
INVARIANT Shape
VIEW Layout
CHECK_DEADLOCK FALSE
