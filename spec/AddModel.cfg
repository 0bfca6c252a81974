CONSTANTS W = 4  N = 3
SPECIFICATION Spec
INVARIANTS NoBorrowLeft AccBounded Right Capacity CarryIsABit
CHECK_DEADLOCK FALSE
