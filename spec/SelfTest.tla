---- MODULE SelfTest ----
(* The operators that TLC evaluates with Java classes against their TLA+ definitions, on pseudo-random inputs.
   Every state is one case; Same is checked in each. *)
EXTENDS Fast, IOUtils
I == INSTANCE BigInt
Count == IF "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough" THEN 60 ELSE 12
VARIABLES part, n
vars == <<part, n>>

\* pseudo-random numbers: a congruential generator started from the case number and the seed of the run
RunSeed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Rnd1(x) == (x * 7141 + 54773) % 259200
Rnd(k) == LET s(a, i) == Rnd1(a) IN FoldLeft(s, (k * 7919 + RunSeed * 104729) % 259200, Iota(5))
Bytes(k, len) == FoldLeft(LAMBDA a, i : [x |-> Rnd1(a.x), o |-> Append(a.o, (a.x \div 800) % 256)], [x |-> Rnd(k), o |-> <<>>], Iota(len)).o

KeyLens == [aes |-> {16, 24, 32}, des |-> {8, 16, 24}, seed |-> {16}, aria |-> {16, 24, 32}, blowfish |-> {4, 5, 16, 31, 56}]
CipherCase(c) ==
  LET b == Bytes(n, BlkLen(c))
      k == SetToSeq(KeyLens[c])
      key == Bytes(n + 7000, k[(n % Len(k)) + 1])
      ks == TLCEval(Sched(c, key))
      y == FEnc(c, key, b)
      z == FDec(c, key, b)
  IN /\ y = Enc(c, ks, b) /\ z = Dec(c, ks, b)
     /\ Dec(c, ks, y) = b /\ Enc(c, ks, z) = b
SlowCipherCase == n <= 4 => CipherCase("blowfish")

DigestCase(a) ==
  LET m == Bytes(n, BlockLen(a) * ((n % 3) + 1))
      t == Bytes(n + 300, (n * 13) % BlockLen(a))
      h == CompressAll(a, IV(a), m)
      len == LenAdd(<<n, n * 399999>>, 0)
  IN /\ FCompressAll(a, IV(a), m) = h
     /\ FCompressAll(a, h, m) = CompressAll(a, h, m)
     /\ FFinish(a, h, t, len) = Finish(a, h, t, len)
     /\ FDigest(a, m \o t) = Digest(a, m \o t)

Rc4Case ==
  LET x == Rc4Key(Bytes(n, ((n * 7) % 60) + 1))
      y == Rc4Crypt(x, Bytes(n + 1, n))
  IN FRc4Crypt(x, Bytes(n + 1, n)) = y /\ FRc4Crypt(y.x, Bytes(n, 50)) = Rc4Crypt(y.x, Bytes(n, 50))

\* passing over k bytes leaves the generator as drawing them, within a block, to its end and over several
PrngCase ==
  LET g == GR!PrngNew(n % 4, Bytes(n, n % 70))
      h == FPrngSkip(g, (n * 37) % 300)
  IN h = PrngSkip(g, (n * 37) % 300) /\ FPrngSkip(h, n * 5) = PrngSkip(h, n * 5) /\ FPrngSkip(h, 0) = h

Dig(k, len) == I!DNorm([i \in 1..len |-> LET v == Rnd(k * 31 + i) IN IF v % 5 = 0 THEN 0 ELSE IF v % 5 = 1 THEN 4095 ELSE v % 4096])
NumCase ==
  LET a == Dig(n, n % 9)
      b == Dig(n + 500, (n \div 3) % 7)
      c == I!NAdd(b, <<1>>)
      e == Dig(n + 900, n % 3)
      s == Bytes(n, n % 12)
  IN /\ I!NCmp(a, b) = I!DCmp(a, b) /\ I!NCmp(a, a) = 0
     /\ I!NAdd(a, b) = I!DAdd(a, b) /\ I!NMul(a, b) = I!DMul(a, b)
     /\ (I!DCmp(a, b) >= 0 => I!NSub(a, b) = I!DSub(a, b))
     /\ c = I!DAdd(b, <<1>>) /\ I!NDivMod(a, c) = I!DDivMod(a, c)
     /\ I!NBitLen(a) = I!DBitLen(a) /\ I!NPow2(n) = I!DPow2(n) /\ I!NNat(n * 5003) = I!DNat(n * 5003)
     /\ I!NPowMod(a, e, c) = I!DPowMod(a, e, c)
     /\ I!NGcd(a, b) = I!DGcd(a, b)
     /\ I!NFromBytes(s) = I!DFromBytes(s) /\ I!NToBytes(a) = I!DToBytes(a) /\ I!NNorm(a \o <<0, 0>>) = a

Groups == [cipher |-> Ciphers, digest |-> Algs, rc4 |-> {"rc4"}, prng |-> {"prng"}, num |-> {"num"}]
Wanted == IF "SELFTEST" \in DOMAIN IOEnv THEN {IOEnv.SELFTEST} ELSE DOMAIN Groups
Init == part \in UNION {Groups[g] : g \in Wanted} /\ n \in 1..Count
Next == UNCHANGED vars
Same == CASE part = "blowfish" -> SlowCipherCase
          [] part \in Ciphers -> CipherCase(part)
          [] part \in Algs -> DigestCase(part)
          [] part = "rc4" -> Rc4Case
          [] part = "prng" -> PrngCase
          [] part = "num" -> NumCase
====
