---- MODULE RaCrypt ----
(* The whole library as one state machine.  The state of a session is a record of stores:
     c  block-cipher contexts      d  digest contexts     r  RC4 contexts     g  random generators
     n  big numbers                m  modulus contexts    k  RSA keys         h  heap ownership
     memo  results that must be reproduced (prime generation from equal generator states)
   LibStep(wb, st, e) says whether the call described by event e is allowed in state st, and the next state. *)
EXTENDS Fast, Random, NumTheory, Rsa, BigNum, Heap, Outcome

BM == INSTANCE BlockMode WITH E <- FEnc, D <- FDec, BL <- BlkLen, X <- XorBytes
H8 == 0..7
NoCtx == [c |-> "none"]
NoDig == [alg |-> "none"]
Finished == [alg |-> "finished"]
NoGen == [kind |-> "none"]
NoMont == [on |-> FALSE]
Start0 == [c |-> [i \in H8 |-> NoCtx], d |-> [i \in H8 |-> NoDig], r |-> [i \in H8 |-> NoCtx], g |-> [i \in H8 |-> NoGen],
           n |-> [i \in 0..47 |-> NoNum], m |-> [i \in H8 |-> NoMont], k |-> [i \in H8 |-> NoKeyObj], h |-> Heap0, memo |-> <<>>]

\* a call that creates a context: it succeeds unless an allocation was made to fail
Made(s, e, new) == IF Failed(e) THEN If(e.rc = OUT_OF_MEMORY, s, "the out-of-memory error") ELSE IF e.rc = 0 THEN Ok(new) ELSE Bad(s, "success")

----
StepCipher(s, e) ==
  CASE e.op = "cc" -> Made(s, e, [s EXCEPT ![e.h] = TLCEval(BM!NewCtx(e.c, e.key, e.mode))])
    [] e.op = "ci" -> Ok([s EXCEPT ![e.h] = TLCEval(BM!NewCtx(s[e.h].c, e.key, e.mode))])
    [] e.op = "cs" -> Ok([s EXCEPT ![e.h] = BM!SetIV(@, e.iv)])
    [] e.op = "cg" -> If(e.iv = s[e.h].iv /\ e.last <= BlkLen(s[e.h].c), s, [iv |-> s[e.h].iv])
    [] e.op = "cu" -> LET r == BM!Update(s[e.h], e.enc = 1, e.in)
                      IN IF e.ret = Len(r.out) /\ e.out = r.out /\ (e.inpl = 1 \/ e.last <= Len(r.out))
                         THEN Ok([s EXCEPT ![e.h] = TLCEval(r.x)]) ELSE Bad(s, [ret |-> Len(r.out), out |-> r.out])
    [] e.op = "cf" -> LET r == BM!Final(s[e.h], e.enc = 1, e.in, e.pad)
                      IN IF e.ret = Len(r.out) /\ e.out = r.out /\ (e.inpl = 1 \/ e.last <= r.full)
                         THEN Ok([s EXCEPT ![e.h] = TLCEval(r.x)]) ELSE Bad(s, [ret |-> Len(r.out), out |-> r.out])
    [] e.op = "cx" -> Ok([s EXCEPT ![e.h] = NoCtx])
CipherOps == {"cc", "ci", "cs", "cg", "cu", "cf", "cx"}

StepDigest(s, e) ==
  CASE e.op = "dc" -> Made(s, e, [s EXCEPT ![e.h] = DC!DNew(e.alg)])
    [] e.op = "di" -> Ok([s EXCEPT ![e.h] = DC!DNew(e.alg)])
    [] e.op = "dx" -> Ok([s EXCEPT ![e.h] = NoDig])
    [] e.op \in {"du", "df"} /\ s[e.h].alg = "finished" -> Ok(s)       \* a finished context has to be re-initialised first
    [] e.op = "du" -> Ok([s EXCEPT ![e.h] = TLCEval(DC!DUpdate(@, e.in))])
    [] e.op = "df" -> LET v == DC!DValue(s[e.h]) IN If(e.out = v /\ e.last <= Len(v), [s EXCEPT ![e.h] = Finished], [digest |-> v])
    [] e.op = "do" -> LET v == FDigest(e.alg, e.in) IN If(e.out = v /\ e.last <= Len(v), s, [digest |-> v])
DigestOps == {"dz", "dc", "di", "du", "df", "dx", "do"}

StepRc4(s, e) ==
  CASE e.op = "4c" -> Made(s, e, [s EXCEPT ![e.h] = TLCEval(Rc4Key(e.key))])
    [] e.op = "4i" -> Ok([s EXCEPT ![e.h] = TLCEval(Rc4Key(e.key))])
    [] e.op = "4u" -> LET r == TLCEval(FRc4Crypt(s[e.h], e.in))
                      IN IF e.ret = Len(e.in) /\ e.out = r.out /\ e.last <= Len(e.in) THEN Ok([s EXCEPT ![e.h] = r.x]) ELSE Bad(s, [out |-> r.out])
    [] e.op = "4x" -> Ok([s EXCEPT ![e.h] = NoCtx])
Rc4Ops == {"4c", "4i", "4u", "4x"}

----
(* Generators: [kind |-> "seq", x (state of the chain), alg, seed, hist] or [kind |-> "opaque", hist, alg, seed]
   after prime generation (an unspecified number of bytes consumed), or [kind |-> "sys"] when seeded by the system. *)
MinEntropy == 16         \* bytes of system entropy in an automatic seed
Draw(x, n) == GR!PrngTake(x, n, <<>>)
RECURSIVE DrawReal(_)
DrawReal(x) ==           \* the next four stream bytes that are neither all zero nor all ones: [g, v]
  LET r == Draw(x, 4)
      v == NFromBytes(r.out)
  IN IF v = <<>> \/ v = D32 THEN DrawReal(r.g) ELSE [g |-> r.g, v |-> v]
Remember(st, key, val, why) ==   \* equal histories of generators with equal seeds have equal results
  IF key \in DOMAIN st.memo THEN If(st.memo[key] = val, st, [sameAsBefore |-> st.memo[key]])
  ELSE Ok([st EXCEPT !.memo = (key :> val) @@ @])
Opaque(st, e, val) ==
  LET g == st.g[e.h]
      arg == CASE e.op = "gb" -> <<e.n>> [] e.op = "gr" -> <<>> [] e.op = "gi" -> <<e.lo.m, e.hi.m>> [] OTHER -> <<e.bits>>
      hist == Append(g.hist, <<e.op, arg>>)
      r == Remember(st, <<g.alg, g.seed, hist>>, val, "")
  IN IF r.ok THEN Ok([r.st EXCEPT !.g[e.h].hist = hist]) ELSE r

StepGen(st, e) ==
  LET g == st.g[e.h]
      Next(x) == Ok([st EXCEPT !.g[e.h].x = TLCEval(x), !.g[e.h].hist = Append(@, <<e.op, IF e.op \in {"gb", "gk"} THEN <<e.n>> ELSE <<>>>>)])
  IN CASE e.op = "gc" -> Made(st, e, [st EXCEPT !.g[e.h] =
                           IF e.sys = 1 THEN [kind |-> "sys"] ELSE [kind |-> "seq", alg |-> GAlg(e.alg), seed |-> e.seed, hist |-> <<>>, x |-> TLCEval(GR!PrngNew(e.alg, e.seed))]])
       \* a generator without a seed takes the system's entropy: the source delivers e.src while the clock stands at e.ms
       [] e.op = "gs" -> IF e.rc # 0 THEN Bad(st, "a generator")
                         ELSE IF e.fds # 0 THEN Bad(st, "as many open descriptors as before")
                         ELSE LET used == e.avail = 1 /\ (e.src # <<>> \/ e.foreign = 0)
                                  key == <<"sys", e.alg, e.out>>
                                  to == IF e.alg >= 10 THEN st ELSE [st EXCEPT !.g[e.h] = [kind |-> "sys"]]
                              IN IF used /\ Len(e.src) < MinEntropy THEN Bad(st, [entropyBytes |-> MinEntropy])
                                 ELSE IF ~used THEN Ok(to)
                                 ELSE IF key \in DOMAIN st.memo THEN If(st.memo[key] = <<e.src, e.ms>>, to, [differentStreamThanWithSource |-> st.memo[key]])
                                 ELSE Ok([to EXCEPT !.memo = (key :> <<e.src, e.ms>>) @@ @])
       [] e.op = "gx" -> Ok([st EXCEPT !.g[e.h] = NoGen])
       [] e.op = "gb" -> IF e.rc # 0 \/ e.last > e.n THEN Bad(st, "n bytes")
                         ELSE IF g.kind = "sys" THEN Ok(st)
                         ELSE IF g.kind = "opaque" THEN Opaque(st, e, e.out)
                         ELSE LET r == Draw(g.x, e.n) IN IF e.out = r.out THEN Next(r.g) ELSE Bad(st, [bytes |-> r.out])
       [] e.op = "gk" -> IF g.kind = "seq" THEN Next(FPrngSkip(g.x, e.n)) ELSE Bad(st, "a seeded generator")
       [] e.op = "gr" -> IF e.z # 0 \/ e.a < 0 THEN Bad(st, "a real strictly between 0 and 1")
                         ELSE IF g.kind = "sys" THEN Ok(st)
                         ELSE IF g.kind = "opaque" THEN Opaque(st, e, <<e.a, e.b>>)
                         ELSE LET r == DrawReal(g.x) IN IF RealOk(r.v, e.a, e.b) THEN Next(r.g) ELSE Bad(st, [numerator |-> r.v])
       [] e.op = "gi" -> IF ~(NLe(e.lo.m, e.v.m) /\ NLe(e.v.m, e.hi.m)) THEN Bad(st, "a value between the bounds")
                         ELSE IF g.kind = "sys" THEN Ok(st)
                         ELSE IF g.kind = "opaque" THEN Opaque(st, e, e.v.m)
                         ELSE LET r == DrawReal(g.x) IN IF IntOk(r.v, e.lo.m, e.hi.m, e.v.m) THEN Next(r.g) ELSE Bad(st, [numerator |-> r.v])
GenOps == {"gc", "gs", "gb", "gk", "gr", "gi", "gx"}

\* random big numbers: consumes whole words of the stream
StepRandNum(wb, st, e) ==
  LET p == SnapOf(e, e.r)
      x == st.n[e.r].x
      need == StreamWords(e.bits, wb)
      known == e.h >= 0 /\ (e.h < 0 \/ st.g[e.h].kind = "seq")
      Shape(m) == CASE e.op = "brnd" -> m
                    [] e.op = "brndo" -> SetBit(m, 0)
                    [] OTHER -> SetBit(SetBit(m, 0), e.bits - 1)
      r == Draw(st.g[e.h].x, need * wb)
      Fin(num, gen) == IF num.ok THEN Ok([st EXCEPT !.n = num.st, !.g = gen]) ELSE Bad(st, num.why)
  IN IF Failed(e) THEN Fin(Settle(st.n, e, wb, (e.r :> IZero), e.rc, FALSE, {}), st.g)
     ELSE IF e.bits <= 0 THEN
       IF e.op = "brndr" THEN Fin(Refuse(st.n, e, wb, {e.r}, e.rc, {INVALID_PARAM}), st.g)
       ELSE Fin(Settle(st.n, e, wb, (e.r :> MkInt(0, Shape(<<>>))), e.rc, TRUE, {}), st.g)
     ELSE IF need > x THEN Fin(Refuse(st.n, e, wb, {e.r}, e.rc, {NUMBER_SIZE}), IF e.h < 0 THEN st.g ELSE [st.g EXCEPT ![e.h] = [kind |-> "sys"]])
     ELSE IF known THEN
       LET v == MkInt(0, Shape(StreamNum(r.out, e.bits)))
       IN Fin(Settle(st.n, e, wb, (e.r :> v), e.rc, TRUE, {}), [st.g EXCEPT ![e.h].x = TLCEval(r.g), ![e.h].hist = Append(@, <<e.op, <<e.bits>>>>)])
     ELSE \* unknown stream: only the shape
       IF e.rc = 0 /\ Normal(p, wb) /\ p.s = 0 /\ p.x = x /\ NBitLen(p.m) <= e.bits
          /\ (e.op = "brnd" \/ NOdd(p.m)) /\ (e.op # "brndr" \/ NBitLen(p.m) = e.bits \/ e.bits = 1)
       THEN LET st2 == [st EXCEPT !.n = Put(@, e.r, [x |-> x, v |-> SnapInt(p)])]
            IN IF e.h >= 0 /\ st.g[e.h].kind = "opaque" THEN Opaque(st2, e, p.m) ELSE Ok(st2)
       ELSE Bad(st, [nonNegativeBelowBits |-> e.bits])
RandNumOps == {"brnd", "brndo", "brndr"}

----
StepGcd(wb, s, e) ==
  LET m == s[e.m].v.m
      n == s[e.n].v.m
      g == NGcd(m, n)
      V(k) == SnapInt(SnapOf(e, k))
      Opt(k, v) == IF k < 0 THEN <<>> ELSE (k :> v)
      positive == s[e.m].v.s = 0 /\ s[e.n].v.s = 0
  IN IF e.op = "gcd" THEN
       IF m = <<>> \/ n = <<>> THEN Refuse(s, e, wb, {e.r}, e.rc, {DIV_BY_ZERO})
       ELSE Settle(s, e, wb, (e.r :> MkInt(0, g)), e.rc, WordsOf(g, wb) <= s[e.r].x, {NUMBER_SIZE})
     ELSE LET W == {e.r, e.a, e.b} \ {-1}
              room == (e.r < 0 \/ WordsOf(g, wb) <= s[e.r].x) /\ (e.a < 0 \/ WordsOf(n, wb) <= s[e.a].x) /\ (e.b < 0 \/ WordsOf(m, wb) <= s[e.b].x)
          IN IF m = <<>> \/ n = <<>> THEN Refuse(s, e, wb, W, e.rc, {DIV_BY_ZERO})
             ELSE IF e.rc # 0 THEN Settle(s, e, wb, Opt(e.r, IZero) @@ Opt(e.a, IZero) @@ Opt(e.b, IZero), e.rc, room, {NUMBER_SIZE})
             ELSE LET a == IF e.a < 0 THEN IZero ELSE V(e.a)
                      b == IF e.b < 0 THEN IZero ELSE V(e.b)
                      coef == /\ (e.a < 0 \/ Coefficient(a, m, n, g))
                              /\ (e.b < 0 \/ Coefficient(b, n, m, g))
                              /\ (e.u = 1 => a.s = 0 /\ b.s = 0)
                              /\ (e.u = 0 /\ e.a >= 0 /\ e.b >= 0 => Bezout(a, m, b, n, g))
                  IN IF ~coef THEN Bad(s, [gcd |-> g, coefficients |-> "of m and n"])
                     ELSE Settle(s, e, wb, Opt(e.r, MkInt(0, g)) @@ Opt(e.a, a) @@ Opt(e.b, b), e.rc, TRUE, {})
GcdOps == {"gcd", "gcdx"}

\* modular exponentiation: m is the modulus (sequence of digits)
ExpMod(wb, s, e, n) ==
  LET a == s[e.a].v
      b == s[e.b].v
  IN IF Words(a, wb) > WordsOf(n, wb) THEN Refuse(s, e, wb, {e.r}, e.rc, {NUMBER_SIZE})
     ELSE IF a.s = 1 \/ b.s = 1 THEN Bad(s, "non-negative operands")
     ELSE Settle(s, e, wb, (e.r :> MkInt(0, NPowMod(a.m, b.m, n))), e.rc, WordsOf(n, wb) <= s[e.r].x, {NUMBER_SIZE})
StepMont(wb, st, e) ==
  CASE e.op = "mc" ->
         LET v == st.n[e.a].v
             same == \A i \in 1..Len(e.o) : Holds(e.o[i], st.n[e.o[i].k], wb)
         IN IF ~same THEN Bad(st, "an unchanged modulus")
            ELSE IF v.m = <<>> \/ ~NOdd(v.m) THEN If(e.rc < 0, st, "an error")
            ELSE IF Failed(e) THEN If(e.rc = OUT_OF_MEMORY, st, "the out-of-memory error")
            ELSE IF e.rc = 0 THEN Ok([st EXCEPT !.m[e.h] = [on |-> TRUE, n |-> v.m]])
            ELSE If(v.s = 1 \/ v.m = NOne, st, "a modulus context")
    [] e.op = "me" -> LET r == ExpMod(wb, st.n, e, st.m[e.h].n) IN IF r.ok THEN Ok([st EXCEPT !.n = r.st]) ELSE Bad(st, r.why)
    [] e.op = "mx" -> Ok([st EXCEPT !.m[e.h] = NoMont])
MontOps == {"mc", "me", "mx"}

ISqrt(x) == CHOOSE k \in 0..200 : k*k >= x /\ (k = 0 \/ (k-1)*(k-1) < x)
\* five Miller-Rabin rounds (three from 1024 bits on) accept an odd composite with probability at most 4^-5 (4^-3);
\* more acceptances than this do not happen by chance
Chance(rep, bits) == LET m == rep \div (IF bits >= 1024 THEN 64 ELSE 1024) IN m + 6 * ISqrt(m) + 3
StepPrime(wb, st, e) ==
  CASE e.op = "pt" ->
         LET v == st.n[e.a].v
             same == \A i \in 1..Len(e.o) : Holds(e.o[i], st.n[e.o[i].k], wb)
             comp == e.f # <<>> /\ v.s = 0 /\ HasFactor(v.m, NFromBytes(e.f))
             prime == ~comp /\ v.s = 0 /\ IsPrime(v.m)
             sure == v.s = 1 \/ NLt(v.m, NTwo) \/ ~NOdd(v.m)     \* rejected without chance
         IN IF ~same THEN Bad(st, "an unchanged number")
            ELSE IF Failed(e) THEN If(e.other = OUT_OF_MEMORY, st, "the out-of-memory error")
            ELSE IF e.other # 0 THEN Bad(st, "a verdict")
            ELSE IF prime THEN If(e.rej = 0, st, "prime")
            ELSE IF sure THEN If(e.acc = 0, st, "not prime")
            ELSE \* an odd composite
                 If(e.acc < Chance(e.rep, NBitLen(v.m)), st, "not prime")
    [] e.op = "pg" ->
         LET p == SnapOf(e, e.r)
             calls == \A i \in 1..Len(e.cnt) : e.cnt[i] = i
             stopped == e.stop > 0 /\ e.calls >= e.stop
             val == MkInt(0, p.m)
             st2 == [st EXCEPT !.n = Put(@, e.r, [x |-> st.n[e.r].x, v |-> SnapInt(p)])]
             prime == e.rc = 0 /\ Normal(p, wb) /\ p.s = 0 /\ p.x = st.n[e.r].x /\ NBitLen(p.m) = e.bits /\ IsPrime(p.m)
             fits == StreamWords(e.bits, wb) <= st.n[e.r].x
         IN IF Failed(e) THEN (IF e.rc = OUT_OF_MEMORY /\ Usable(p, st.n[e.r]) THEN Ok(IF e.h < 0 THEN st2 ELSE [st2 EXCEPT !.g[e.h] = [kind |-> "sys"]]) ELSE Bad(st, "the out-of-memory error"))
            ELSE IF ~fits \/ e.bits < 2 THEN (IF e.rc < 0 /\ Usable(p, st.n[e.r]) THEN Ok(IF e.h < 0 THEN st2 ELSE [st2 EXCEPT !.g[e.h] = [kind |-> "sys"]]) ELSE Bad(st, "an error"))
            ELSE IF ~calls THEN Bad(st, "progress counts 1, 2, 3, ...")
            ELSE IF e.stop > 0 /\ e.calls > e.stop THEN Bad(st, [callsUntil |-> e.stop])
            ELSE IF stopped THEN (IF Usable(p, st.n[e.r]) THEN Ok(IF e.h < 0 THEN st2 ELSE [st2 EXCEPT !.g[e.h] = [kind |-> "sys"]]) ELSE Bad(st, "a stopped search"))
            ELSE IF ~prime THEN Bad(st, [primeOfBits |-> e.bits])
            ELSE IF e.h < 0 \/ st2.g[IF e.h < 0 THEN 0 ELSE e.h].kind = "sys" THEN Ok(st2)
            ELSE Opaque([st2 EXCEPT !.g[e.h] = [kind |-> "opaque", alg |-> @.alg, seed |-> @.seed, hist |-> @.hist]], e, p.m)
PrimeOps == {"pt", "pg"}

KeyOps == {"kc", "ki", "ke", "kk", "kb", "kx"}
StepRsaOp(wb, st, e) ==
  LET k == st.k[e.h]
  IN IF k.state # "known" THEN Bad(st, "a key whose numbers are known")
     ELSE IF e.op = "kn" THEN
       LET Fin(r) == IF r.ok THEN Ok([st EXCEPT !.n = r.st]) ELSE Bad(st, r.why)
           x == IF e.f = "enc" THEN k.e ELSE k.priv[1]
           a == st.n[e.a].v
       IN IF e.f # "enc" /\ k.priv = <<>> THEN Fin(Refuse(st.n, e, wb, {e.r}, e.rc, {INVALID_DATA}))
          ELSE IF Words(a, wb) > Words(k.n, wb) THEN Fin(Refuse(st.n, e, wb, {e.r}, e.rc, {NUMBER_SIZE}))
          ELSE IF a.s = 1 \/ x.s = 1 THEN Bad(st, "non-negative operands")
          ELSE Fin(Settle(st.n, e, wb, (e.r :> MkInt(0, NPowMod(a.m, x.m, k.n.m))), e.rc, Words(k.n, wb) <= st.n[e.r].x, {NUMBER_SIZE}))
     ELSE \* kv: a signature, b message
       LET a == st.n[e.a].v
           b == st.n[e.b].v
           eq == a.s = 0 /\ b.s = 0 /\ NPowMod(a.m, k.e.m, k.n.m) = b.m
           same == \A i \in 1..Len(e.o) : Holds(e.o[i], st.n[e.o[i].k], wb)
       IN IF ~same THEN Bad(st, "unchanged numbers")
          ELSE IF Failed(e) THEN If(e.rc = OUT_OF_MEMORY, st, "the out-of-memory error")
          ELSE IF e.rc = 0 THEN If(eq, st, "an invalid signature")
          ELSE If(e.rc < 0 /\ (~eq \/ Words(a, wb) > Words(k.n, wb)), st, "a valid signature")

----
(* Messages too long to be recorded: n zero bytes.  Their digest D is the value of the chaining function after the n
   bytes and their padding; so the digest of (n zero bytes, that padding, X) follows from D and X.  A context that
   has absorbed a long message is [alg, long |-> TRUE, n]; the digest of the long message itself is remembered. *)
IsLong(x) == "long" \in DOMAIN x
StepLong(st, e) ==
  LET x == st.d[e.h]
      key == <<"long", x.alg, e.n>>
      keyx == <<"long", x.alg, x.n>>
      pad == Pad(x.alg, Repeat(0, x.n[2] % BlockLen(x.alg)), x.n)
      k == Len(pad)
  IN CASE e.op = "dz" -> If(x = DC!DNew(x.alg), [st EXCEPT !.d[e.h] = [alg |-> x.alg, long |-> TRUE, n |-> e.n]], "a new context")
       [] e.op = "df" -> IF e.last > DigestLen(x.alg) THEN Bad(st, "a digest")
                         ELSE LET r == Remember(st, keyx, e.out, "") IN IF r.ok THEN Ok([r.st EXCEPT !.d[e.h] = Finished]) ELSE r
       [] e.op = "du" -> IF keyx \in DOMAIN st.memo /\ Len(e.in) >= k /\ Take(e.in, k) = pad
                         THEN Ok([st EXCEPT !.d[e.h] = TLCEval(DC!DUpdate([alg |-> x.alg, h |-> Unoutput(x.alg, st.memo[keyx]), buf |-> <<>>, n |-> LenAdd(x.n, k)], Drop(e.in, k)))])
                         ELSE Bad(st, "the padding of the long message")

----
Core(wb, st, e) ==
  CASE e.op \in CipherOps -> LET r == StepCipher(st.c, e) IN IF r.ok THEN Ok([st EXCEPT !.c = r.st]) ELSE Bad(st, r.why)
    [] e.op = "dz" \/ (e.op \in {"du", "df"} /\ IsLong(st.d[e.h])) -> StepLong(st, e)
    [] e.op \in DigestOps -> LET r == StepDigest(st.d, e) IN IF r.ok THEN Ok([st EXCEPT !.d = r.st]) ELSE Bad(st, r.why)
    [] e.op \in Rc4Ops -> LET r == StepRc4(st.r, e) IN IF r.ok THEN Ok([st EXCEPT !.r = r.st]) ELSE Bad(st, r.why)
    [] e.op \in GenOps -> StepGen(st, e)
    [] e.op \in NumOps -> LET r == StepNum(st.n, e, wb) IN IF r.ok THEN Ok([st EXCEPT !.n = r.st]) ELSE Bad(st, r.why)
    [] e.op \in RandNumOps -> StepRandNum(wb, st, e)
    [] e.op \in GcdOps -> LET r == StepGcd(wb, st.n, e) IN IF r.ok THEN Ok([st EXCEPT !.n = r.st]) ELSE Bad(st, r.why)
    [] e.op \in MontOps -> StepMont(wb, st, e)
    [] e.op \in PrimeOps -> StepPrime(wb, st, e)
    [] e.op \in KeyOps -> LET r == StepKey(st.k, st.n, e, wb) IN IF r.ok THEN Ok([st EXCEPT !.k = r.st]) ELSE Bad(st, r.why)
    [] e.op \in {"kn", "kv"} -> StepRsaOp(wb, st, e)
    [] e.op = "nop" -> Ok(st)
    [] OTHER -> Bad(st, "a known event")

LibStep(wb, st, e) ==
  LET r == Core(wb, st, e)
  IN IF ~r.ok THEN r
     ELSE LET h == StepHeap(st.h, e) IN IF h.ok THEN Ok([r.st EXCEPT !.h = h.st]) ELSE Bad(st, [heap |-> h.why])
====
