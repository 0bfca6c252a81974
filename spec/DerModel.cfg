CONSTANTS N = 6
Alpha = {0, 1, 2, 3, 48, 128, 129}
MaxDepth <- Two
SPECIFICATION Spec
INVARIANTS Inside Agree WriteBack
CHECK_DEADLOCK FALSE
