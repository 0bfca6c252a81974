CONSTANTS NMAX = 600 BMAX = 9
Table <- SmallTable
SPECIFICATION Spec
INVARIANTS Verdict Candidate PrimeFound NothingSkipped TypeOk
CHECK_DEADLOCK FALSE
