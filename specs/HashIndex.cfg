SPECIFICATION Spec
CONSTANT Keys = {1, 2, 3, 4, 5}
CONSTANT HashSets <- Hash1
INVARIANT Abstract
INVARIANT Shape
VIEW Layout
CHECK_DEADLOCK FALSE
