---- MODULE CodecModel ----
(* Big-endian two's complement of a sign and magnitude, octet by octet, with octets of base OB: the encoder walks from
   the least significant octet carrying the borrow of a negative number, the decoder complements and adds one with a
   carry.  All octet strings up to the bound are decoded, encoded and decoded again. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS OB, N
VARIABLES in, i, carry, mag, sign, out, k, pc
vars == <<in, i, carry, mag, sign, out, k, pc>>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Strings == UNION {[1..n -> 0..(OB - 1)] : n \in 1..N}
Neg(s) == s[1] >= OB \div 2
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE OB * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
Twos(s) == IF Neg(s) THEN Val(s) - Pow(OB, Len(s)) ELSE Val(s)      \* the meaning of an octet string
Num == IF sign = 1 THEN -mag ELSE mag
Minimal(s) == Len(s) = 1 \/ (~(s[1] = 0 /\ s[2] < OB \div 2) /\ ~(s[1] = OB - 1 /\ s[2] >= OB \div 2))

Init == /\ in \in Strings /\ i = Len(in) /\ carry = (IF Neg(in) THEN 1 ELSE 0) /\ mag = 0
        /\ sign = (IF Neg(in) THEN 1 ELSE 0) /\ out = <<>> /\ k = 0 /\ pc = "dec"
Dec == /\ pc = "dec" /\ i >= 1
       /\ LET v == IF sign = 1 THEN (OB - 1 - in[i]) + carry ELSE in[i]
          IN /\ mag' = mag + (v % OB) * Pow(OB, Len(in) - i)
             /\ carry' = IF sign = 1 THEN v \div OB ELSE 0
       /\ i' = i - 1 /\ UNCHANGED <<in, sign, out, k, pc>>
DecEnd == /\ pc = "dec" /\ i = 0
          /\ mag' = mag + carry * Pow(OB, Len(in))
          /\ carry' = sign /\ pc' = "enc" /\ UNCHANGED <<in, i, sign, out, k>>
\* encode: octets of the magnitude, complemented with a carry when negative, until the rest is only sign
Rest == mag \div Pow(OB, k)
Enc == /\ pc = "enc"
       /\ LET d == Rest % OB
              v == IF sign = 1 THEN (OB - 1 - d) + carry ELSE d
              o == v % OB
              c == IF sign = 1 THEN v \div OB ELSE 0
              more == mag \div Pow(OB, k + 1)
              \* the sign is visible in the octet just written
              stop == more = 0 /\ (IF sign = 1 THEN (o >= OB \div 2) ELSE o < OB \div 2)
          IN /\ out' = <<o>> \o out /\ carry' = c /\ k' = k + 1
             /\ pc' = IF stop THEN "done" ELSE "enc"
       /\ UNCHANGED <<in, i, mag, sign>>
Next == Dec \/ DecEnd \/ Enc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Decoded == pc # "dec" => Num = Twos(in)
Encoded == pc = "done" => Twos(out) = Num /\ Minimal(out) /\ Len(out) <= Len(in)
Same == pc = "done" /\ Minimal(in) => out = in
Bounded == k <= N
Ends == <>(pc = "done")
====
