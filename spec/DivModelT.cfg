CONSTANTS W = 8  NA = 3  NB = 2
SPECIFICATION Spec
INVARIANTS Partial TopWord TwoCorrections Right
CHECK_DEADLOCK FALSE
