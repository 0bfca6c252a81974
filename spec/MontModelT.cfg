CONSTANTS W = 8  K = 2  SZ = 3  EMAX = 70  NEXP = 51
SPECIFICATION Spec
INVARIANTS Small Exact Product Power
CHECK_DEADLOCK FALSE
