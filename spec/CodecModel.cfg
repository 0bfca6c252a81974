CONSTANTS OB = 4  N = 5
SPECIFICATION Spec
INVARIANTS Decoded Encoded Same Bounded
CHECK_DEADLOCK FALSE
