CONSTANT MaxLen = 13
SPECIFICATION Spec
INVARIANTS DivisionIndependent OtherIndependent Value PaddedWhole
CHECK_DEADLOCK FALSE
