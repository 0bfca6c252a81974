INIT Init
NEXT Next
INVARIANT Same
