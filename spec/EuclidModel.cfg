CONSTANT N = 60
SPECIFICATION Spec
INVARIANTS Identity Bounds Progress Done
PROPERTY Ends
CHECK_DEADLOCK FALSE
