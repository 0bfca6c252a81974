---- MODULE PrngModel ----
(* The seeded generator (Prng) over a small hash, exhaustively: whatever requests are made, the bytes handed out are
   the stream of the seed; a second generator with the same seed gives the same stream; an interleaved one with
   another seed does not disturb it. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS MaxTotal
GNew(a) == 7
GUpd(h, data) == FoldLeft(LAMBDA c, d : (c * 31 + d + 3) % 1009, h, data)
GVal(h) == <<h % 16, (h \div 16) % 16, (h \div 256) % 4>>          \* blocks of three
P == INSTANCE Prng WITH GNew <- GNew, GUpdate <- GUpd, GValue <- GVal
Seeds == {<<1>>, <<2, 3>>}
VARIABLES seed, g, out, h, hout
vars == <<seed, g, out, h, hout>>
Init == seed \in Seeds /\ g = P!PrngNew(0, seed) /\ out = <<>> /\ h = P!PrngNew(0, <<9>>) /\ hout = <<>>
Take == \E n \in 0..7 : Len(out) + n <= MaxTotal /\ LET r == P!PrngTake(g, n, <<>>) IN g' = r.g /\ out' = out \o r.out /\ Len(r.out) = n /\ UNCHANGED <<seed, h, hout>>
Other == \E n \in {1, 4} : Len(hout) + n <= 9 /\ LET r == P!PrngTake(h, n, <<>>) IN h' = r.g /\ hout' = hout \o r.out /\ UNCHANGED <<seed, g, out>>
Next == Take \/ Other
Spec == Init /\ [][Next]_vars
Stream(s, n) == P!PrngTake(P!PrngNew(0, s), n, <<>>).out
\* block k of the stream: the chain of the definition
RECURSIVE Chain(_, _)
Chain(s, k) == IF k = 0 THEN LET c == GUpd(GUpd(GNew(0), s), P!BE4(0)) IN <<c, GVal(c)>>
               ELSE LET p == Chain(s, k - 1)
                        c == GUpd(GUpd(p[1], p[2]), P!BE4(k)) IN <<c, GVal(c)>>
IsTheStream == \A i \in 1..Len(out) : out[i] = Chain(seed, (i - 1) \div 3)[2][((i - 1) % 3) + 1]
OtherIsTheStream == hout = Stream(<<9>>, Len(hout))
Offset == g.off = IF out = <<>> THEN 0 ELSE ((Len(out) - 1) % 3) + 1
====
