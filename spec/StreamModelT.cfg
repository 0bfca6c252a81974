CONSTANT MaxLen = 6
SPECIFICATION Spec
INVARIANTS DivisionIndependent OtherIndependent Buffered RoundTrip PadOk
CHECK_DEADLOCK FALSE
