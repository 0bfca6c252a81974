CONSTANTS BitsSet = {6, 8, 10}
E = 5
SPECIFICATION Spec
INVARIANTS Inverse2 OneToOne Generated Changed Reduced
CHECK_DEADLOCK FALSE
