---- MODULE PrimeModel ----
(* The primality test and the search for candidates.
   "mr": Miller-Rabin with every base 2..n-2 for every odd n up to NMAX: primes pass with every base; of a composite at
   most a quarter of the bases are fooled, so that r rounds accept it with probability at most 4^-r: the bound that the
   checks use for the frequencies they observe.
   "gen": from every random start with B bits, with the top and the lowest bit set, the search by steps of two for a number without a divisor in
   the table of small primes (or in the table): the candidate keeps its number of bits or is given up; every prime of B bits is found. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NMAX, BMAX, Table
SmallTable == <<3, 5, 7, 11, 13>>
VARIABLES part, n, b, liars, s, d, x, k, bits, add
vars == <<part, n, b, liars, s, d, x, k, bits, add>>
RECURSIVE PM(_, _, _)
PM(v, e, m) == IF e = 0 THEN 1 % m ELSE LET h == PM(v, e \div 2, m) IN IF e % 2 = 0 THEN (h * h) % m ELSE (((h * h) % m) * v) % m
Prime(m) == m > 1 /\ \A f \in 2..(m - 1) : f * f > m \/ m % f # 0
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Init == \/ /\ part = "base" /\ n \in {m \in 5..NMAX : m % 2 = 1} /\ b = 2 /\ liars = 0
           /\ s = (CHOOSE e \in 1..20 : (n - 1) % Pow2(e) = 0 /\ ((n - 1) \div Pow2(e)) % 2 = 1)
           /\ d = (n - 1) \div Pow2(s) /\ x = 0 /\ k = 0 /\ bits = 0 /\ add = 0
        \/ /\ part = "find" /\ bits \in 2..BMAX /\ n \in {m \in Pow2(bits - 1)..(Pow2(bits) - 1) : m % 2 = 1}
           /\ add = 0 /\ b = 0 /\ liars = 0 /\ s = 0 /\ d = 0 /\ x = 0 /\ k = 1
Base == /\ part = "base" /\ b <= n - 2
        /\ x' = PM(b, d, n) /\ k' = 0 /\ part' = "square" /\ UNCHANGED <<n, b, liars, s, d, bits, add>>
Square == /\ part = "square"
          /\ LET pass == x = n - 1 \/ (k = 0 /\ x = 1)
             IN IF pass \/ k >= s - 1
                THEN part' = "base" /\ b' = b + 1 /\ liars' = (IF pass THEN liars + 1 ELSE liars) /\ UNCHANGED <<x, k>>
                ELSE x' = (x * x) % n /\ k' = k + 1 /\ UNCHANGED <<part, b, liars>>
          /\ UNCHANGED <<n, s, d, bits, add>>
\* k: position in the table
Find == /\ part = "find"
        /\ IF k > Len(Table) THEN part' = "found" /\ UNCHANGED <<k, add>>
           ELSE IF n + add = Table[k] THEN k' = Len(Table) + 1 /\ UNCHANGED <<part, add>>
           ELSE IF ((n % Table[k]) + add) % Table[k] = 0 THEN add' = add + 2 /\ k' = 1 /\ UNCHANGED part
           ELSE k' = k + 1 /\ UNCHANGED <<part, add>>
        /\ UNCHANGED <<n, b, liars, s, d, x, bits>>
Accept == /\ part = "found"
          /\ part' = (IF n + add >= Pow2(bits) THEN "again" ELSE "candidate") /\ UNCHANGED <<n, b, liars, s, d, x, k, bits, add>>
Next == Base \/ Square \/ Find \/ Accept
Spec == Init /\ [][Next]_vars
Verdict == part = "base" /\ b = n - 1 =>
             IF Prime(n) THEN liars = n - 3                        \* complete: a prime is never refused
             ELSE 4 * liars <= n - 3                               \* at most one base in four
InTable(v) == \E j \in 1..Len(Table) : Table[j] = v
Candidate == part = "candidate" =>
             LET c == n + add
             IN /\ c >= Pow2(bits - 1) /\ c < Pow2(bits) /\ c % 2 = 1
                /\ (InTable(c) \/ \A j \in 1..Len(Table) : c % Table[j] # 0)
PrimeFound == part \in {"found", "candidate", "again"} /\ Prime(n) => add = 0 /\ part # "again"    \* every prime is reached
NothingSkipped == part = "candidate" => \A v \in n..(n + add - 1) : ~Prime(v)
TypeOk == add <= 2 * Pow2(BMAX)
====
