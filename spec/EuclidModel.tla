---- MODULE EuclidModel ----
(* The extended Euclidean algorithm for every pair up to N: remainders with the coefficients that produce them.
   It justifies what the checks demand of coefficients: they satisfy the identity and stay within the operands, so that
   results with the capacity of the operands always fit. *)
EXTENDS Integers, TLC
CONSTANT N
VARIABLES m, n, r0, r1, x0, x1, y0, y1
vars == <<m, n, r0, r1, x0, x1, y0, y1>>
Abs(v) == IF v < 0 THEN -v ELSE v
Divides(d, v) == v % d = 0
Gcd(p, q) == CHOOSE g \in 1..N : Divides(g, p) /\ Divides(g, q) /\ \A d \in (g+1)..N : ~(Divides(d, p) /\ Divides(d, q))
Init == /\ m \in 1..N /\ n \in 1..N /\ r0 = m /\ r1 = n /\ x0 = 1 /\ x1 = 0 /\ y0 = 0 /\ y1 = 1
Next == /\ r1 # 0
        /\ LET q == r0 \div r1
           IN /\ r0' = r1 /\ r1' = r0 - q * r1 /\ x0' = x1 /\ x1' = x0 - q * x1 /\ y0' = y1 /\ y1' = y0 - q * y1
        /\ UNCHANGED <<m, n>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Identity == r0 = x0 * m + y0 * n /\ r1 = x1 * m + y1 * n
Bounds == Abs(x0) <= n /\ Abs(x1) <= n /\ Abs(y0) <= m /\ Abs(y1) <= m
Progress == r1 >= 0 /\ r1 <= N
\* the result, its coefficients and their representatives in 0..
Done == r1 = 0 => LET g == r0
                      u == ((x0 % n) + n) % n
                  IN /\ g = Gcd(m, n)
                     /\ (g = 1 /\ n > 1 => (u * m) % n = 1)             \* the inverse
                     /\ (u * m - g) % n = 0
Ends == <>(r1 = 0)
====
