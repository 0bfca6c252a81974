CONSTANTS Objects = {0, 1, 2} MaxAlloc = 3 MaxEvents = 10
Faults <- AllFaults
SPECIFICATION Spec
INVARIANTS Sound Complete Accounts Nothing
CHECK_DEADLOCK FALSE
