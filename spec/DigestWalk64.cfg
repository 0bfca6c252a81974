INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANT BL = 64
