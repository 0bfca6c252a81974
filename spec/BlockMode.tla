---- MODULE BlockMode ----
(* A block-cipher context: modes of operation, streaming, padding, chaining value.
   Parameters: the block permutation and its block length.
   A context is [c, ks, mode, iv, buf]: cipher, expanded key, mode, chaining value, incomplete input block. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS E(_, _, _), D(_, _, _), BL(_), X(_, _)   \* encrypt, decrypt, block length, xor of blocks

Zeros(n) == [i \in 1..n |-> 0]
NewCtx(c, ks, mode) == [c |-> c, ks |-> ks, mode |-> mode, iv |-> Zeros(BL(c)), buf |-> <<>>]
SetIV(x, iv) == [x EXCEPT !.iv = iv, !.buf = <<>>]

\* one block: <<output, next chaining value>>
Block(x, enc, iv, b) ==
  CASE x.mode = "ecb" -> IF enc THEN <<E(x.c, x.ks, b), iv>> ELSE <<D(x.c, x.ks, b), iv>>
    [] x.mode = "cbc" -> IF enc THEN LET y == E(x.c, x.ks, X(b, iv)) IN <<y, y>> ELSE <<X(D(x.c, x.ks, b), iv), b>>
    [] x.mode = "cfb" -> LET y == X(b, E(x.c, x.ks, iv)) IN IF enc THEN <<y, y>> ELSE <<y, b>>
    [] x.mode = "ofb" -> LET k == E(x.c, x.ks, iv) IN <<X(b, k), k>>

\* whole blocks: [out, iv]; long data in parts of 256 blocks
PartBlocks(x, enc, data, from, to, iv) ==
  LET n == BL(x.c)
  IN FoldLeft(LAMBDA a, i : LET r == Block(x, enc, a.iv, SubSeq(data, (i-1)*n + 1, i*n)) IN [out |-> a.out \o r[1], iv |-> r[2]],
              [out |-> <<>>, iv |-> iv], [i \in 1..(to - from) |-> from + i])
Blocks(x, enc, data) ==
  LET k == Len(data) \div BL(x.c)
  IN IF k <= 256 THEN PartBlocks(x, enc, data, 0, k, x.iv)
     ELSE FoldLeft(LAMBDA a, i : LET r == TLCEval(PartBlocks(x, enc, data, (i-1)*256, IF i*256 < k THEN i*256 ELSE k, a.iv)) IN [out |-> a.out \o r.out, iv |-> r.iv],
                   [out |-> <<>>, iv |-> x.iv], [i \in 1..((k + 255) \div 256) |-> i])

\* feed a piece of data: [out, x]
Update(x, enc, in) ==
  LET all == x.buf \o in
      k   == (Len(all) \div BL(x.c)) * BL(x.c)
      r   == Blocks(x, enc, SubSeq(all, 1, k))
  IN [out |-> r.out, x |-> [x EXCEPT !.iv = r.iv, !.buf = SubSeq(all, k + 1, Len(all))]]

PadBytes(n, len, pad) ==   \* what is appended to an incomplete block of len < n bytes
  CASE pad = "pkcs7" -> [i \in 1..(n - len) |-> n - len]
    [] pad = "zero"  -> IF len = 0 THEN <<>> ELSE Zeros(n - len)
    [] OTHER -> <<>>

ValidPadLen(n, out) ==     \* length of a valid PKCS#7 padding at the end of out, or 0
  LET p == out[Len(out)]
  IN IF p >= 1 /\ p <= n /\ p <= Len(out) /\ \A i \in (Len(out) - p + 1)..Len(out) : out[i] = p THEN p ELSE 0

\* last piece of data: [out, full (length written before stripping), x]
Final(x, enc, in, pad) ==
  LET n == BL(x.c)
      u == Update(x, enc, in)
      p == IF enc THEN PadBytes(n, Len(u.x.buf), pad) ELSE <<>>
      f == Update(u.x, enc, p)
      o == u.out \o f.out
      s == IF ~enc /\ pad = "pkcs7" /\ o # <<>> THEN ValidPadLen(n, o) ELSE 0
  IN [out |-> SubSeq(o, 1, Len(o) - s), full |-> Len(o), x |-> [f.x EXCEPT !.buf = <<>>]]
====
