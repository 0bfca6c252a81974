---- MODULE MontModel ----
(* Montgomery multiplication with words of base W and the left-to-right window exponentiation on top of it.
   Part "mul": every odd modulus of up to K words and all pairs of residues: word by word t = (t + a b_i + u n) / W;
   the result needs at most one subtraction.  Part "exp": exponent digits of SZ bits against the plain power. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, K, SZ, EMAX, NEXP
VARIABLES part, n, a, b, i, t, e
vars == <<part, n, a, b, i, t, e>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Len1(x) == CHOOSE k \in 1..K : x < Pow(W, k) /\ (k = 1 \/ x >= Pow(W, k - 1))
WordAt(x, k) == (x \div Pow(W, k)) % W
NegInv(m) == CHOOSE u \in 0..(W - 1) : (u * m + 1) % W = 0       \* -1/m modulo the word base
R(m) == Pow(W, Len1(m))
MontMul(x, y, m) == CHOOSE z \in 0..(m - 1) : (z * R(m) - x * y) % m = 0
Init == \/ /\ part = "mul" /\ n \in {k \in 3..(Pow(W, K) - 1) : k % 2 = 1} /\ a \in 0..(n - 1) /\ b \in 0..(n - 1) /\ i = 0 /\ t = 0 /\ e = 0
        \/ /\ part = "exp" /\ n \in {k \in 3..NEXP : k % 2 = 1} /\ a \in 0..(n - 1) /\ e \in 0..EMAX
           /\ b = 0 /\ i = (CHOOSE k \in 0..20 : Pow(2, SZ * k) > e /\ (k = 0 \/ Pow(2, SZ * (k - 1)) <= e))
           /\ t = R(n) % n                                             \* one in Montgomery form
MulStep == /\ part = "mul" /\ i < Len1(n)
           /\ LET s == t + a * WordAt(b, i)
                  u == (s * NegInv(n)) % W
              IN t' = (s + u * n) \div W
           /\ i' = i + 1 /\ UNCHANGED <<part, n, a, b, e>>
MulEnd == /\ part = "mul" /\ i = Len1(n) /\ part' = "mulend" /\ t' = (IF t >= n THEN t - n ELSE t) /\ UNCHANGED <<n, a, b, i, e>>
\* windows from the top: SZ squarings and one multiplication with a table entry
RECURSIVE MPow(_, _)
MPow(x, k) == IF k = 0 THEN R(n) % n ELSE MontMul(MPow(x, k - 1), x, n)
RECURSIVE Sq(_, _)
Sq(x, k) == IF k = 0 THEN x ELSE Sq(MontMul(x, x, n), k - 1)
ExpStep == /\ part = "exp" /\ i > 0
           /\ LET d == (e \div Pow(2, SZ * (i - 1))) % Pow(2, SZ)
                  am == (a * R(n)) % n
              IN t' = MontMul(Sq(t, SZ), MPow(am, d), n)
           /\ i' = i - 1 /\ UNCHANGED <<part, n, a, b, e>>
ExpEnd == /\ part = "exp" /\ i = 0 /\ part' = "expend" /\ t' = MontMul(t, 1, n) /\ UNCHANGED <<n, a, b, i, e>>
Next == MulStep \/ MulEnd \/ ExpStep \/ ExpEnd
Spec == Init /\ [][Next]_vars
RECURSIVE PM(_, _)
PM(x, k) == IF k = 0 THEN 1 % n ELSE (PM(x, k - 1) * x) % n
Small == part = "mul" => t < 2 * n                                    \* one subtraction suffices
Exact == part = "mul" => (t * Pow(W, i) - a * (b % Pow(W, i))) % n = 0
Product == part = "mulend" => t < n /\ (t * R(n) - a * b) % n = 0
Power == part = "expend" => t = PM(a, e)
====
