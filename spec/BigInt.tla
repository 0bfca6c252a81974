---- MODULE BigInt ----
(* Natural-number operators (see BigIntDef for the representation and the definitions);
   evaluated by java/BigInt.java when it is on TLC's class path.  Integers on top of them. *)
EXTENDS BigIntDef

NNorm(a) == DNorm(a)
NNat(k) == DNat(k)
NCmp(a, b) == DCmp(a, b)
NAdd(a, b) == DAdd(a, b)
NSub(a, b) == DSub(a, b)
NMul(a, b) == DMul(a, b)
NDivMod(a, b) == DDivMod(a, b)
NBitLen(a) == DBitLen(a)
NPow2(k) == DPow2(k)
NPowMod(x, e, m) == DPowMod(x, e, m)
NGcd(a, b) == DGcd(a, b)
NFromBytes(s) == DFromBytes(s)
NToBytes(a) == DToBytes(a)

NQuo(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]
NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NOdd(a) == a # <<>> /\ a[1] % 2 = 1
NOne == <<1>>
NTwo == <<2>>
NTrailing(a) == \* number of trailing zero bits of a > 0
  LET i == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..(i-1) : a[j] = 0
      k == CHOOSE k \in 0..11 : a[i] % (2^(k+1)) # 0 /\ a[i] % (2^k) = 0
  IN 12*(i-1) + k

----
\* integers
MkInt(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
IZero == MkInt(0, <<>>)
ISmall(k) == IF k < 0 THEN MkInt(1, NNat(-k)) ELSE MkInt(0, NNat(k))
INeg(a) == MkInt(1 - a.s, a.m)
IAbs(a) == MkInt(0, a.m)
IAdd(a, b) ==
  IF a.s = b.s THEN MkInt(a.s, NAdd(a.m, b.m))
  ELSE IF NCmp(a.m, b.m) >= 0 THEN MkInt(a.s, NSub(a.m, b.m)) ELSE MkInt(b.s, NSub(b.m, a.m))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkInt(IF a.s = b.s THEN 0 ELSE 1, NMul(a.m, b.m))
ICmp(a, b) == IF a = b THEN 0 ELSE LET d == ISub(a, b) IN IF d.s = 1 THEN -1 ELSE 1
IShl(a, k) == MkInt(a.s, NMul(a.m, NPow2(k)))
IShrMag(a, k) == MkInt(a.s, NQuo(a.m, NPow2(k)))     \* shift of the magnitude
IFloorDivMod(a, b) ==   \* b # 0: quotient rounded down, remainder with the sign of b
  LET d == NDivMod(a.m, b.m)
  IN IF a.s = b.s THEN <<MkInt(0, d[1]), MkInt(b.s, d[2])>>
     ELSE IF d[2] = <<>> THEN <<MkInt(1, d[1]), IZero>>
     ELSE <<MkInt(1, NAdd(d[1], NOne)), MkInt(b.s, NSub(b.m, d[2]))>>

\* big-endian byte strings
Complement(s) == [i \in 1..Len(s) |-> 255 - s[i]]
IFromTwos(s) ==   \* two's complement, most significant byte first
  IF s = <<>> THEN IZero
  ELSE IF s[1] < 128 THEN MkInt(0, NFromBytes(s))
  ELSE MkInt(1, NAdd(NFromBytes(Complement(s)), NOne))
IToTwos(a) ==     \* minimal two's complement
  IF a.m = <<>> THEN <<0>>
  ELSE IF a.s = 0 THEN LET b == NToBytes(a.m) IN IF b[1] >= 128 THEN <<0>> \o b ELSE b
  ELSE LET b == NToBytes(NSub(a.m, NOne))     \* -a - 1
           c == IF b = <<>> THEN <<0>> ELSE IF b[1] >= 128 THEN <<0>> \o b ELSE b
       IN Complement(c)
====
