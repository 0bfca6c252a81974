CONSTANTS NMAX = 3000 BMAX = 13
Table <- SmallTable
SPECIFICATION Spec
INVARIANTS Verdict Candidate PrimeFound NothingSkipped TypeOk
CHECK_DEADLOCK FALSE
