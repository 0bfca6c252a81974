---- MODULE DivModel ----
(* Long division with words of base W, as the library does it (Knuth's algorithm D): the divisor is shifted until the
   top bit of its highest word is set, each quotient word is estimated from the two highest words of the partial
   remainder, and corrected downwards.  Every pair of operands up to the bounds is divided step by step.
   The result is rounded down with the remainder taking the divisor's sign (see BigInt!IFloorDivMod). *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, NA, NB            \* base (a power of two), words of the dividend and of the divisor
VARIABLES a, b, sa, sb, bit, rem, j, q, qu, pc
vars == <<a, b, sa, sb, bit, rem, j, q, qu, pc>>

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Words(x) == CHOOSE n \in 1..(NA + 2) : x < Pow(W, n) /\ (n = 1 \/ x >= Pow(W, n - 1))
WordAt(x, i) == (x \div Pow(W, i)) % W
TopBits(b0) == CHOOSE k \in 0..16 : LET h == WordAt(b0, Words(b0) - 1) * Pow(2, k) IN h < W /\ 2 * h >= W

bb == b * Pow(2, bit)
aa == a * Pow(2, bit)
n == Words(bb)
Init == /\ a \in 0..(Pow(W, NA) - 1) /\ b \in 1..(Pow(W, NB) - 1)
        /\ sa \in {0, 1} /\ sb \in {0, 1}
        /\ bit = TopBits(b)
        /\ IF Words(a) < Words(b) THEN pc = "short" /\ rem = 0 /\ j = 0
           ELSE /\ pc = "next"
                /\ LET s == a * Pow(2, TopBits(b)) IN rem = s \div Pow(W, Words(s) - Words(b) + 1) /\ j = Words(s) - Words(b)
        /\ q = 0 /\ qu = 0
\* bring down the next word and estimate
Next1 == /\ pc = "next" /\ j >= 0
         /\ LET r == rem * W + WordAt(aa, j)
                hi == r \div Pow(W, n - 1)             \* the two highest words
                bu == WordAt(bb, n - 1)
            IN /\ rem' = r
               /\ qu' = IF hi \div bu >= W THEN W - 1 ELSE hi \div bu
         /\ pc' = "correct" /\ UNCHANGED <<a, b, sa, sb, bit, j, q>>
Correct == /\ pc = "correct" /\ rem < qu * bb
           /\ qu' = qu - 1 /\ UNCHANGED <<a, b, sa, sb, bit, rem, j, q, pc>>
Subtract == /\ pc = "correct" /\ rem >= qu * bb
            /\ rem' = rem - qu * bb /\ q' = q * W + qu /\ j' = j - 1 /\ pc' = "next"
            /\ UNCHANGED <<a, b, sa, sb, bit, qu>>
Finish == /\ \/ pc = "next" /\ j < 0
             \/ pc = "short"
          /\ rem' = IF pc = "short" THEN a ELSE rem \div Pow(2, bit)
          /\ q' = IF pc = "short" THEN 0 ELSE q
          /\ pc' = "done" /\ UNCHANGED <<a, b, sa, sb, bit, j, qu>>
Next == Next1 \/ Correct \/ Subtract \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* magnitudes to signed values: rounding down
SQ == IF sa = sb THEN q ELSE IF rem = 0 THEN -q ELSE -q - 1
SR == LET m == IF sa = sb \/ rem = 0 THEN rem ELSE b - rem IN IF sb = 1 THEN -m ELSE m
S(s, x) == IF s = 1 THEN -x ELSE x
Partial == pc = "next" => rem < bb                          \* a remainder never reaches the divisor
TopWord == pc = "correct" => rem < bb * W
TwoCorrections == pc = "correct" => qu - (rem \div bb) <= 2 /\ qu >= rem \div bb   \* the estimate is at most two too large
Right == pc = "done" => /\ S(sa, a) = SQ * S(sb, b) + SR
                        /\ (IF sb = 0 THEN 0 <= SR /\ SR < b ELSE -b < SR /\ SR <= 0)
Ends == <>(pc = "done")
====
