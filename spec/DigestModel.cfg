CONSTANT MaxLen = 9
SPECIFICATION Spec
INVARIANTS DivisionIndependent OtherIndependent Value PaddedWhole
CHECK_DEADLOCK FALSE
