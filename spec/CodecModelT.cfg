CONSTANTS OB = 8  N = 6
SPECIFICATION Spec
INVARIANTS Decoded Encoded Same Bounded
CHECK_DEADLOCK FALSE
