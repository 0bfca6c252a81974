CONSTANTS W = 4  NA = 4  NB = 3
SPECIFICATION Spec
INVARIANTS Partial TopWord TwoCorrections Right
CHECK_DEADLOCK FALSE
