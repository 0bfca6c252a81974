---- MODULE Random ----
(* Values derived from the random stream. *)
EXTENDS BigInt
D32 == <<4095, 4095, 255>>           \* 2^32 - 1
\* the real v/(2^32-1) printed as two 24-bit digits; one unit of the last place is rounding
RealOk(v, a, b) ==
  LET f == NQuo(NMul(v, NPow2(48)), D32)
      x == NAdd(NMul(NNat(a), NPow2(24)), NNat(b))
  IN a >= 0 /\ a < 16777216 /\ NLe(x, NAdd(f, NOne)) /\ NLe(f, NAdd(x, NOne))

\* the integer lo + floor((hi - lo + 1) * v/(2^32-1)); next to an integer the rounding of the product may go either way
IntOk(v, lo, hi, x) ==
  LET range == NAdd(NSub(hi, lo), NOne)
      d == NDivMod(NMul(range, v), D32)
      near == NPow2(16)
      lowq == NLt(NMul(d[2], near), D32)
      hiq  == NLt(NMul(NSub(D32, d[2]), near), D32)
      w == NSub(x, lo)
  IN /\ NLe(lo, x) /\ NLe(x, hi)
     /\ \/ w = d[1]
        \/ lowq /\ NAdd(w, NOne) = d[1]
        \/ hiq /\ w = NAdd(d[1], NOne)

\* a big number of `bits' bits from whole words of stream bytes (least significant byte first)
StreamWords(bits, wb) == (bits + 8*wb - 1) \div (8*wb)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
StreamNum(bytes, bits) == NMod(NFromBytes(Rev(bytes)), NPow2(bits))
SetBit(m, k) == IF (At(m, (k \div 12) + 1) \div (2^(k % 12))) % 2 = 1 THEN m ELSE NAdd(m, NPow2(k))
====
