CONSTANT MaxTotal = 16
SPECIFICATION Spec
INVARIANTS IsTheStream OtherIsTheStream Offset
CHECK_DEADLOCK FALSE
