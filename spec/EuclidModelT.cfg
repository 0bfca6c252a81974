CONSTANT N = 160
SPECIFICATION Spec
INVARIANTS Identity Bounds Progress Done
PROPERTY Ends
CHECK_DEADLOCK FALSE
