---- MODULE BigIntDef ----
(* Arbitrary-precision arithmetic, defined over TLC's 32-bit integers.
   A natural number is the sequence of its base-4096 digits, least significant first, without
   leading zeros (0 is <<>>).  An integer is a record [s |-> 0 or 1, m |-> magnitude]; zero has s = 0.
   These are the definitions; module BigInt gives the same operators, which TLC may evaluate with
   java/BigInt.java (SelfTest checks that both agree). *)
EXTENDS Integers, Sequences, SequencesExt, TLC

B == 4096
BI(n) == [i \in 1..n |-> i]

RECURSIVE DNorm(_)
DNorm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN DNorm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE DNat(_)
DNat(k) == IF k = 0 THEN <<>> ELSE <<k % B>> \o DNat(k \div B)

At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Mx(x, y) == IF x > y THEN x ELSE y

DCmp(a, b) ==   \* -1, 0, 1
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA c, i : IF a[i] = b[i] THEN c ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, BI(Len(a)))

DAdd(a, b) ==
  LET r == FoldLeft(LAMBDA s, i : LET t == At(a, i) + At(b, i) + s.c IN [c |-> t \div B, d |-> Append(s.d, t % B)],
                    [c |-> 0, d |-> <<>>], BI(Mx(Len(a), Len(b))))
  IN IF r.c = 0 THEN r.d ELSE Append(r.d, r.c)

DSub(a, b) ==   \* a >= b
  DNorm(FoldLeft(LAMBDA s, i : LET t == B + a[i] - At(b, i) - s.c IN [c |-> 1 - (t \div B), d |-> Append(s.d, t % B)],
                 [c |-> 0, d |-> <<>>], BI(Len(a))).d)

DMul1(a, k) ==  \* times a digit
  LET r == FoldLeft(LAMBDA s, i : LET t == a[i] * k + s.c IN [c |-> t \div B, d |-> Append(s.d, t % B)],
                    [c |-> 0, d |-> <<>>], BI(Len(a)))
  IN DNorm(IF r.c = 0 THEN r.d ELSE Append(r.d, r.c))
DShift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
RECURSIVE DMul(_, _)
DMul(a, b) == IF b = <<>> THEN <<>> ELSE DAdd(DMul1(a, b[1]), DShift(DMul(a, Tail(b)), 1))

\* long division in base 2: one bit at a time from the top
Bit(a, i) == (At(a, (i \div 12) + 1) \div (2^(i % 12))) % 2
DBitLen(a) == IF a = <<>> THEN 0 ELSE 12*(Len(a)-1) + (CHOOSE k \in 1..12 : 2^(k-1) <= a[Len(a)] /\ a[Len(a)] < 2^k)
DPow2(k) == DShift(<<2^(k % 12)>>, k \div 12)
DDivMod(a, b) ==
  LET n == DBitLen(a)
      st == FoldLeft(LAMBDA s, i :
              LET r == DAdd(DAdd(s.r, s.r), IF Bit(a, n - i) = 1 THEN <<1>> ELSE <<>>)
                  g == DCmp(r, b) >= 0
              IN [q |-> DAdd(DAdd(s.q, s.q), IF g THEN <<1>> ELSE <<>>), r |-> IF g THEN DSub(r, b) ELSE r],
              [q |-> <<>>, r |-> <<>>], BI(n))
  IN <<st.q, st.r>>
DPowMod(x, e, m) ==
  LET n == DBitLen(e)
      md(v) == DDivMod(v, m)[2]
  IN FoldLeft(LAMBDA y, i : LET z == md(DMul(y, y)) IN IF Bit(e, n - i) = 1 THEN md(DMul(z, x)) ELSE z, md(<<1>>), BI(n))
RECURSIVE DGcd(_, _)
DGcd(a, b) == IF b = <<>> THEN a ELSE DGcd(b, DDivMod(a, b)[2])

DFromBytes(s) == FoldLeft(LAMBDA a, x : DAdd(DMul1(a, 256), DNat(x)), <<>>, s)   \* big-endian
RECURSIVE DToBytes(_)
DToBytes(a) == IF a = <<>> THEN <<>> ELSE LET d == DDivMod(a, DNat(256)) IN Append(DToBytes(d[1]), At(d[2], 1))
====
