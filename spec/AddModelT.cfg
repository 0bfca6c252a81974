CONSTANTS W = 6  N = 3
SPECIFICATION Spec
INVARIANTS NoBorrowLeft AccBounded Right Capacity CarryIsABit
CHECK_DEADLOCK FALSE
