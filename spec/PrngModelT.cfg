CONSTANT MaxTotal = 200
SPECIFICATION Spec
INVARIANTS IsTheStream OtherIsTheStream Offset
CHECK_DEADLOCK FALSE
