---- MODULE DigestModel ----
(* The digest context (DigestCtx) over a small compression function, exhaustively: every message up to MaxLen bits, in
   every division into pieces; the value depends on the message only, reading the value and starting again work in
   every state, and a second context is not affected.  Distinct messages get distinct padded strings. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT MaxLen
BLn == 4
TIV(a) == 1
TBL(a) == BLn
Val(b) == FoldLeft(LAMBDA v, d : 2 * v + d, 0, b)
TCA(a, h, bits) == FoldLeft(LAMBDA c, i : ((c * 5 + Val(SubSeq(bits, (i-1)*BLn + 1, i*BLn)) + 7) * 11) % 251, h, [i \in 1..(Len(bits) \div BLn) |-> i])
\* padding: a one, zeros, and the length (2 bits are enough for the low part here)
TPad(t, n) == <<1>> \o [i \in 1..((2*BLn - 1 - 2 - t) % BLn) |-> 0] \o <<(n \div 2) % 2, n % 2>>
TFin(a, h, tail, n) == TCA(a, h, tail \o TPad(Len(tail), n))
TAdd(n, k) == n + k
DC == INSTANCE DigestCtx WITH DIV <- TIV, DBL <- TBL, DCA <- TCA, DFin <- TFin, LZero <- 0, LAdd <- TAdd
VARIABLES x, msg, y, ymsg, val
vars == <<x, msg, y, ymsg, val>>
Init == x = DC!DNew("toy") /\ msg = <<>> /\ y = DC!DNew("toy") /\ ymsg = <<>> /\ val = -1
Feed == \E n \in 0..(MaxLen - Len(msg)) : \E p \in [1..n -> {0, 1}] : val = -1 /\ x' = DC!DUpdate(x, p) /\ msg' = msg \o p /\ UNCHANGED <<y, ymsg, val>>
Other == \E s \in {0, 1} : Len(ymsg) < 3 /\ y' = DC!DUpdate(y, <<s>>) /\ ymsg' = Append(ymsg, s) /\ UNCHANGED <<x, msg, val>>
Finish == val = -1 /\ val' = DC!DValue(x) /\ UNCHANGED <<x, msg, y, ymsg>>
Again == val # -1 /\ x' = DC!DNew("toy") /\ msg' = <<>> /\ val' = -1 /\ UNCHANGED <<y, ymsg>>
Next == Feed \/ Other \/ Finish \/ Again
Spec == Init /\ [][Next]_vars
Plain(m) == LET k == (Len(m) \div BLn) * BLn IN TFin("toy", TCA("toy", 1, SubSeq(m, 1, k)), SubSeq(m, k + 1, Len(m)), Len(m))
DivisionIndependent == DC!DValue(x) = Plain(msg) /\ x.n = Len(msg) /\ Len(x.buf) < BLn
OtherIndependent == DC!DValue(y) = Plain(ymsg)
Value == val # -1 => val = Plain(msg)
PaddedWhole == (Len(msg) + Len(TPad(Len(msg) % BLn, Len(msg)))) % BLn = 0
====
