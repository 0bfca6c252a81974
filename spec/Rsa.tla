---- MODULE Rsa ----
(* RSA key objects.  A key is [state |-> "none" | "gen" (generated, numbers not yet seen) | "known",
   bits, n, e, priv |-> <<>> or <<d, p, q, dp, dq, qinv>>, qlen |-> answer to an earlier length query or -1]. *)
EXTENDS NumTheory, Der, Outcome, IOUtils
NoKeyObj == [state |-> "none"]
GenKey(bits) == [state |-> "gen", bits |-> bits, qlen |-> -1, pub |-> <<>>]
KnownKey(nums) == [state |-> "known", n |-> nums[1], e |-> nums[2], priv |-> SubSeq(nums, 3, Len(nums))]
Nums(k) == <<k.n, k.e>> \o k.priv

Pos(a) == a.s = 0 /\ a.m # <<>>
E65537 == ISmall(65537)
\* every relation between the components of a private key
ValidPriv(k) ==
  LET d == k.priv[1].m   p == k.priv[2].m   q == k.priv[3].m
      dp == k.priv[4].m  dq == k.priv[5].m  qi == k.priv[6].m
      e == k.e.m  n == k.n.m
      p1 == NSub(p, NOne)  q1 == NSub(q, NOne)
      phi == NMul(p1, q1)
  IN /\ \A i \in 1..6 : k.priv[i].s = 0
     /\ Pos(k.e) /\ Pos(k.n) /\ NLt(NOne, e) /\ NLt(e, n)
     /\ p # <<>> /\ q # <<>> /\ NMul(p, q) = n /\ p # q
     /\ IsPrime(p) /\ IsPrime(q)
     /\ IsInverse(d, e, phi)
     /\ dp = NMod(d, p1) /\ dq = NMod(d, q1)
     /\ IsInverse(qi, q, p)
ValidKey(k) == IF k.priv = <<>> THEN k.n.s = 0 /\ k.e.s = 0 /\ NLt(NOne, k.e.m) /\ NLt(k.e.m, k.n.m) ELSE ValidPriv(k)
\* the verification in the library also requires bits(p) + bits(q) = bits(n); where that fails it may go either way
RegularBits(k) == NBitLen(k.priv[2].m) + NBitLen(k.priv[3].m) = NBitLen(k.n.m)

\* the library configured to verify keys when they are imported (RACRYPT_RSA_VERIFY_KEY)
VerifyOnImport == "VERIFY_KEY" \in DOMAIN IOEnv
Importable(k) == VerifyOnImport => ValidKey(k)
MustImport(k) == VerifyOnImport => ValidKey(k) /\ (k.priv # <<>> => RegularBits(k))

GeneratedOk(k, bits) == NBitLen(k.n.m) = bits /\ k.e = E65537 /\ Len(k.priv) = 6 /\ ValidPriv(k)

\* an import that fails leaves nothing of the private numbers in the memory it releases (numbers lie low byte first);
\* verification, where it is configured, uses temporary numbers of its own
Windows(s, n) == {SubSeq(s, i, i + n - 1) : i \in 1..(Len(s) - n + 1)}
Leaves(e, nums) ==
  /\ "rel" \in DOMAIN e /\ Len(e.rel) > 0 /\ Len(nums) = 8 /\ ~VerifyOnImport
  /\ LET secret == TLCEval(UNION {LET b == NToBytes(nums[i].m) IN Windows([j \in 1..Len(b) |-> b[Len(b) + 1 - j]], 6) : i \in 3..8})
     IN \E i \in 1..(Len(e.rel) - 5) : SubSeq(e.rel, i, i + 5) \in secret

\* an export reports the length where there is a place for it
LengthOk(e, n) == e.rl = IF e.nl = 1 THEN -7 ELSE n

StepKey(ks, bn, e, wb) ==   \* ks: handles, bn: number store; results as <<allowed, ks', expected>>
  LET k == ks[e.h]
      To(x) == Ok(TLCEval([ks EXCEPT ![e.h] = x]))
      Keep(c, w) == If(c, ks, w)
  IN CASE e.op = "kc" -> IF e.rc = 0 THEN (IF Failed(e) THEN Bad(ks, "the out-of-memory error") ELSE To(GenKey(e.bits)))
                         ELSE Keep(Failed(e) /\ e.rc = OUT_OF_MEMORY, "success")
       [] e.op = "ki" ->
            LET r == CASE e.kind = "pub" -> PubKey(e.in) [] e.kind = "priv" -> PrivKey(e.in) [] OTHER -> AnyKey(e.in)
            IN IF e.rc = 0 THEN IF r.ok /\ ~Failed(e) /\ Importable(KnownKey(r.nums)) THEN To(TLCEval(KnownKey(r.nums))) ELSE Bad(ks, "an error")
               ELSE IF r.ok /\ Leaves(e, r.nums) THEN Bad(ks, "nothing of the private key in released memory")
               ELSE IF Failed(e) THEN Keep(e.rc = OUT_OF_MEMORY, "the out-of-memory error")
               ELSE Keep(e.rc < 0 /\ (~r.strict \/ ~MustImport(KnownKey(r.nums))), [key |-> r.nums])
       [] e.op = "ke" ->
            IF Failed(e) THEN Keep(e.rc = OUT_OF_MEMORY /\ e.last = 0, "the out-of-memory error")
            ELSE IF k.state = "known" THEN
              IF e.kind = "priv" /\ k.priv = <<>> THEN Keep(e.rc = INVALID_DATA /\ e.last = 0, "refusal")
              ELSE LET der == IF e.kind = "priv" THEN PrivDer(Nums(k)) ELSE PubDer(<<k.n, k.e>>)
                   IN IF e.n < 0 THEN Keep(e.rc = 0 /\ LengthOk(e, Len(der)) /\ e.last = 0, [length |-> Len(der)])
                      ELSE IF e.n < Len(der) THEN Keep(e.rc = OUT_OF_BUFFER /\ e.last <= e.n, [error |-> OUT_OF_BUFFER, length |-> Len(der)])
                      ELSE Keep(e.rc = 0 /\ LengthOk(e, Len(der)) /\ SubSeq(e.out, 1, Len(der)) = der /\ e.last <= e.n, [length |-> Len(der), der |-> der])
            ELSE IF k.state # "gen" THEN Bad(ks, "a key")
            ELSE IF e.n < 0 THEN (IF e.rc = 0 /\ e.last = 0 THEN To([k EXCEPT !.qlen = IF e.kind = "priv" THEN e.rl ELSE -1]) ELSE Bad(ks, "a length"))
            ELSE IF e.kind = "pub" THEN
                   LET r == AnyKey(e.out)
                   IN IF e.rc = 0 /\ r.ok /\ Len(r.nums) = 2 /\ e.rl = Len(e.out) /\ e.last <= e.n
                      THEN IF PubDer(r.nums) = e.out /\ r.nums[2] = E65537 /\ NBitLen(r.nums[1].m) = k.bits
                           THEN To([k EXCEPT !.pub = r.nums]) ELSE Bad(ks, [canonical |-> PubDer(r.nums), bits |-> k.bits])
                      ELSE Bad(ks, "a canonical public key")
            ELSE LET r == AnyKey(e.out)
                 IN IF e.rc = 0 /\ r.ok /\ Len(r.nums) = 8 /\ e.rl = Len(e.out) /\ e.last <= e.n /\ k.qlen \in {-1, e.rl}
                    THEN LET x == TLCEval(KnownKey(r.nums))
                         IN IF PrivDer(r.nums) # e.out THEN Bad(ks, [canonical |-> PrivDer(r.nums)])
                            ELSE IF ~GeneratedOk(x, k.bits) THEN Bad(ks, [consistentKeyOfBits |-> k.bits])
                            ELSE IF k.pub # <<>> /\ k.pub # <<x.n, x.e>> THEN Bad(ks, [pub |-> k.pub])
                            ELSE To(x)
                    ELSE Bad(ks, [canonicalPrivateKeyOfBits |-> k.bits, length |-> k.qlen])
       [] e.op = "kk" ->
            IF Failed(e) THEN Keep(e.rc = OUT_OF_MEMORY, "the out-of-memory error")
            ELSE IF k.state = "gen" THEN Keep(e.rc = 0, "a valid key")
            ELSE IF ValidKey(k) THEN Keep(e.rc = 0 \/ (k.priv # <<>> /\ ~RegularBits(k) /\ e.rc < 0), "a valid key")
            ELSE Keep(e.rc < 0, "an invalid key")
       [] e.op = "kb" -> LET b == IF k.state = "gen" THEN k.bits ELSE NBitLen(k.n.m) IN Keep(e.rc = b, b)
       [] e.op = "kx" -> To(NoKeyObj)
       [] OTHER -> Bad(ks, "a key event")
====
