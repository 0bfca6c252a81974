---- MODULE Prng ----
(* The seeded random generator: a hash chain.  A digest context absorbs the seed and a 32-bit counter; the value of
   a copy is the first output block.  Every further block absorbs the previous block and the counter.
   Parameters: the digest context operations of DigestCtx. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS GNew(_), GUpdate(_, _), GValue(_)     \* GNew(algorithm number)

BE4(c) == << c \div 16777216, (c \div 65536) % 256, (c \div 256) % 256, c % 256 >>
Absorb(x, data, c) == GUpdate(GUpdate(x, data), BE4(c))
Refill(g) == LET x == TLCEval(Absorb(g.x, g.blk, g.cnt)) IN TLCEval([g EXCEPT !.x = x, !.blk = GValue(x), !.off = 0, !.cnt = @ + 1])
PrngNew(alg, seed) == LET x == TLCEval(Absorb(GNew(alg), seed, 0)) IN TLCEval([x |-> x, blk |-> GValue(x), off |-> 0, cnt |-> 1])

\* the next n bytes: [g, out]
Piece(a) ==                \* takes what the current block has, or makes the next block
  LET g == a.g
      k == IF a.n < Len(g.blk) - g.off THEN a.n ELSE Len(g.blk) - g.off
  IN IF k = 0 THEN (IF a.n = 0 THEN a ELSE [a EXCEPT !.g = Refill(g)])
     ELSE [g |-> [g EXCEPT !.off = @ + k], n |-> a.n - k, out |-> Append(a.out, SubSeq(g.blk, g.off + 1, g.off + k))]
PrngTake(g, n, acc) ==
  LET steps == 2 * (n \div Len(g.blk)) + 4
      r == FoldLeft(LAMBDA a, i : TLCEval(Piece(a)), [g |-> g, n |-> n, out |-> <<acc>>], [i \in 1..steps |-> i])
  IN [g |-> r.g, out |-> FlattenSeq(r.out)]
====
