CONSTANTS W = 4  K = 3  SZ = 2  EMAX = 20  NEXP = 25
SPECIFICATION Spec
INVARIANTS Small Exact Product Power
CHECK_DEADLOCK FALSE
