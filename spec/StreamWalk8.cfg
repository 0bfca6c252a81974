INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANTS BS = 8 MaxLen = 17
