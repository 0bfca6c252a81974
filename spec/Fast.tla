---- MODULE Fast ----
(* The primitives as the rest of the specification uses them.  Each is defined by the operators of Ciphers, Digests
   and Rc4; for speed TLC evaluates them with java/Fast.java, and SelfTest has TLC compare the two. *)
EXTENDS Ciphers, Digests, Rc4

FEnc(c, key, b) == Enc(c, Sched(c, key), b)
FDec(c, key, b) == Dec(c, Sched(c, key), b)
FCompressAll(alg, h, bytes) == CompressAll(alg, h, bytes)
FRc4Crypt(x, in) == Rc4Crypt(x, in)

FFinish(alg, h, tail, n) ==
  LET p == FCompressAll(alg, h, tail \o Pad(alg, tail, n))
  IN Output(alg, IF alg = "md2" THEN FCompressAll(alg, p, p.c) ELSE p)
FDigest(alg, msg) ==
  LET bl == BlockLen(alg)
      k  == Len(msg) \div bl
  IN FFinish(alg, FCompressAll(alg, IV(alg), Take(msg, k*bl)), Drop(msg, k*bl), <<Len(msg) \div 16777216, Len(msg) % 16777216>>)

\* digest contexts and the generator over these primitives; passing over n bytes of a stream
DC == INSTANCE DigestCtx WITH DIV <- IV, DBL <- BlockLen, DCA <- FCompressAll, DFin <- FFinish, LZero <- LenZero, LAdd <- LenAdd
GAlg(a) == CASE a = 1 -> "sha256" [] a = 2 -> "sha512" [] a = 3 -> "md5" [] OTHER -> "sha1"
GenNew(a) == DC!DNew(GAlg(a))
GR == INSTANCE Prng WITH GNew <- GenNew, GUpdate <- DC!DUpdate, GValue <- DC!DValue
PrngSkip(g, n) == GR!PrngTake(g, n, <<>>).g
FPrngSkip(g, n) == PrngSkip(g, n)
====
