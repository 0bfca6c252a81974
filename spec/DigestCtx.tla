---- MODULE DigestCtx ----
(* A digest context: algorithm, chaining value, incomplete block, message length.
   Parameters: the algorithm (see Digests), so that the streaming layer can be checked with small ones. *)
EXTENDS Integers, Sequences
CONSTANTS DIV(_), DBL(_), DCA(_, _, _), DFin(_, _, _, _), LZero, LAdd(_, _)

DNew(alg) == [alg |-> alg, h |-> DIV(alg), buf |-> <<>>, n |-> LZero]
DUpdate(x, in) ==
  LET all == x.buf \o in
      k == (Len(all) \div DBL(x.alg)) * DBL(x.alg)
  IN [x EXCEPT !.h = DCA(x.alg, @, SubSeq(all, 1, k)), !.buf = SubSeq(all, k + 1, Len(all)), !.n = LAdd(@, Len(in))]
DValue(x) == DFin(x.alg, x.h, x.buf, x.n)
====
