---- MODULE AddModel ----
(* Addition, subtraction and multiplication of sign and magnitude numbers word by word (base W), for every pair of
   operands: carries and borrows, the choice of the larger magnitude, the length of the result (which fixes the capacity
   that the specification demands, see BigNum), no negative zero, and column accumulators that stay below W^2 * n. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, N
VARIABLES op, a, b, sa, sb, i, carry, out, sign, acc, pc
vars == <<op, a, b, sa, sb, i, carry, out, sign, acc, pc>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
WordAt(x, k) == (x \div Pow(W, k)) % W
Words(x) == CHOOSE k \in 1..(2 * N + 1) : x < Pow(W, k) /\ (k = 1 \/ x >= Pow(W, k - 1))
Max(x, y) == IF x > y THEN x ELSE y
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE Head(s) + W * Val(Tail(s))
S(s, x) == IF s = 1 THEN -x ELSE x
\* an addition of unlike signs is a subtraction of magnitudes
Like == IF op = "add" THEN sa = sb ELSE sa # sb
Hi == Max(a, b)
Lo == IF a > b THEN b ELSE a
Init == /\ op \in {"add", "sub", "mul"} /\ a \in 0..(Pow(W, N) - 1) /\ b \in 0..(Pow(W, N) - 1)
        /\ sa \in {0, 1} /\ sb \in {0, 1} /\ (a = 0 => sa = 0) /\ (b = 0 => sb = 0)
        /\ i = 0 /\ carry = 0 /\ out = <<>> /\ sign = 0 /\ acc = 0 /\ pc = op
Sum == /\ pc \in {"add", "sub"} /\ Like
       /\ IF i < Max(Words(a), Words(b))
          THEN LET v == WordAt(a, i) + WordAt(b, i) + carry
               IN out' = Append(out, v % W) /\ carry' = v \div W /\ i' = i + 1 /\ UNCHANGED <<pc, sign>>
          ELSE out' = (IF carry = 0 THEN out ELSE Append(out, carry)) /\ sign' = sa /\ pc' = "trim" /\ UNCHANGED <<i, carry>>
       /\ UNCHANGED <<op, a, b, sa, sb, acc>>
Difference ==
       /\ pc \in {"add", "sub"} /\ ~Like
       /\ IF i < Words(Hi)
          THEN LET v == WordAt(Hi, i) - WordAt(Lo, i) - carry
               IN out' = Append(out, v % W) /\ carry' = (IF v < 0 THEN 1 ELSE 0) /\ i' = i + 1 /\ UNCHANGED <<pc, sign>>
          ELSE sign' = (IF a >= b THEN sa ELSE IF op = "add" THEN sb ELSE 1 - sb) /\ pc' = "trim" /\ UNCHANGED <<i, carry, out>>
       /\ UNCHANGED <<op, a, b, sa, sb, acc>>
\* column i of the product: all a_j b_(i-j)
RECURSIVE Column(_, _)
Column(k, j) == IF j > k THEN 0 ELSE WordAt(a, j) * WordAt(b, k - j) + Column(k, j + 1)
Product ==
       /\ pc = "mul"
       /\ IF i < Words(a) + Words(b) - 1
          THEN LET v == acc + Column(i, 0) IN out' = Append(out, v % W) /\ acc' = v \div W /\ i' = i + 1 /\ UNCHANGED <<pc, sign>>
          ELSE out' = Append(out, acc % W) /\ acc' = acc \div W /\ sign' = (IF sa = sb THEN 0 ELSE 1) /\ pc' = "trim" /\ UNCHANGED i
       /\ UNCHANGED <<op, a, b, sa, sb, carry>>
\* drop leading zero words; zero is not negative
Trim == /\ pc = "trim"
        /\ IF Len(out) > 1 /\ out[Len(out)] = 0 THEN out' = SubSeq(out, 1, Len(out) - 1) /\ UNCHANGED <<pc, sign>>
           ELSE /\ pc' = "done" /\ sign' = (IF out = <<0>> THEN 0 ELSE sign) /\ UNCHANGED out
        /\ UNCHANGED <<op, a, b, sa, sb, i, carry, acc>>
Next == Sum \/ Difference \/ Product \/ Trim
Spec == Init /\ [][Next]_vars
Want == LET x == S(sa, a)  y == S(sb, b) IN CASE op = "add" -> x + y [] op = "sub" -> x - y [] OTHER -> x * y
NoBorrowLeft == pc = "trim" /\ ~Like /\ op # "mul" => carry = 0
AccBounded == acc < W * N /\ (pc = "trim" => acc = 0)
Right == pc = "done" => S(sign, Val(out)) = Want /\ (Val(out) = 0 => sign = 0) /\ Len(out) = Words(Val(out))
Capacity == pc = "done" => Len(out) <= (IF op = "mul" THEN Words(a) + Words(b) ELSE Max(Words(a), Words(b)) + 1)
CarryIsABit == carry \in {0, 1}
====
