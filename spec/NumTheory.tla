---- MODULE NumTheory ----
(* Greatest common divisors, inverses, modular powers, primality. *)
EXTENDS BigInt
SmallPrimes == <<2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71>>

\* Miller-Rabin for base b: n odd, n > b
Witness(n, b) ==   \* b proves that n is composite
  LET n1 == NSub(n, NOne)
      s == NTrailing(n1)
      d == NQuo(n1, NPow2(s))
      RECURSIVE Sq(_, _)
      Sq(x, i) == IF x = n1 THEN FALSE ELSE IF i = s THEN TRUE ELSE Sq(NMod(NMul(x, x), n), i + 1)
      x0 == NPowMod(b, d, n)
  IN IF x0 = NOne THEN FALSE ELSE Sq(x0, 1)
IsPrime(n) ==      \* exact below 3.3 * 10^24 (the first 13 prime bases), beyond that for all numbers not built against these bases
  IF NLt(n, NTwo) THEN FALSE
  ELSE IF \E i \in 1..Len(SmallPrimes) : n = NNat(SmallPrimes[i]) THEN TRUE
  ELSE IF \E i \in 1..Len(SmallPrimes) : NMod(n, NNat(SmallPrimes[i])) = <<>> THEN FALSE
  ELSE IF NLt(n, NNat(5041)) THEN TRUE
  ELSE \A i \in 1..Len(SmallPrimes) : ~Witness(n, NNat(SmallPrimes[i]))
HasFactor(n, f) == NLt(NOne, f) /\ NLt(f, n) /\ NMod(n, f) = <<>>

\* a is the inverse of x modulo m, reduced
IsInverse(a, x, m) == NLt(a, m) /\ NMod(NMul(a, x), m) = NMod(NOne, m)

\* a*m + b*n = g over the integers
Bezout(a, m, b, n, g) == IAdd(IMul(a, MkInt(0, m)), IMul(b, MkInt(0, n))) = MkInt(0, g)
\* some b exists with a*m + b*n = g
Coefficient(a, m, n, g) == LET d == ISub(MkInt(0, g), IMul(a, MkInt(0, m))) IN NMod(d.m, n) = <<>>
====
