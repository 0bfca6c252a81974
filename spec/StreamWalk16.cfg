INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANTS BS = 16 MaxLen = 33
