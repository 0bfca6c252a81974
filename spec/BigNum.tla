---- MODULE BigNum ----
(* Big-number objects: a store of integers in objects of fixed capacity.
   An object is [x |-> capacity in words (0: no object), v |-> integer].
   Every event carries a projection of all objects involved, after the call. *)
EXTENDS BigInt, Outcome

NoNum == [x |-> 0, v |-> IZero]
NewNum(x) == [x |-> x, v |-> IZero]

WordsOf(m, wb) == LET b == NBitLen(m) IN IF b = 0 THEN 1 ELSE (b + 8*wb - 1) \div (8*wb)
Words(a, wb) == WordsOf(a.m, wb)
ProductWords(a, b, wb) == (Mx(1, NBitLen(a.m)) + Mx(1, NBitLen(b.m)) + 8*wb - 1) \div (8*wb)

SnapOf(e, k) == e.o[CHOOSE i \in 1..Len(e.o) : e.o[i].k = k]
SnapInt(p) == MkInt(p.s, p.m)
Normal(p, wb) == p.s \in {0, 1} /\ p.l = WordsOf(p.m, wb) /\ p.l <= p.x
Holds(p, obj, wb) == /\ p.x = obj.x
                     /\ (obj.x > 0 => (Normal(p, wb) /\ SnapInt(p) = obj.v))
Usable(p, obj) == p.x = obj.x /\ p.s \in {0, 1}

(* The call wrote the objects in DOMAIN upd, to those values if it succeeded.  `must': it has to succeed;
   otherwise it may fail with a code in `errs', leaving some integer in the written objects.
   Objects that are only read never change. *)
Settle(s, e, wb, upd, rc, must, errs) ==
  LET W == DOMAIN upd
      snaps == {e.o[i] : i \in 1..Len(e.o)}
      good == /\ rc = 0 /\ ~Failed(e)
              /\ \A p \in snaps : Holds(p, IF p.k \in W THEN [x |-> s[p.k].x, v |-> upd[p.k]] ELSE s[p.k], wb)
      fail == /\ rc # 0
              /\ IF Failed(e) THEN rc = OUT_OF_MEMORY ELSE ~must /\ rc \in errs
              /\ \A p \in snaps : IF p.k \in W THEN Usable(p, s[p.k]) ELSE Holds(p, s[p.k], wb)
  IN IF good \/ fail
     THEN Ok(TLCEval([k \in DOMAIN s |-> IF k \in W /\ s[k].x > 0 THEN [x |-> s[k].x, v |-> SnapInt(SnapOf(e, k))] ELSE s[k]]))
     ELSE Bad(s, [expected |-> upd, mustSucceed |-> must, errors |-> errs, before |-> [k \in {p.k : p \in snaps} |-> s[k]]])

Refuse(s, e, wb, W, rc, errs) ==   \* the call must fail
  LET r == Settle(s, e, wb, [k \in W |-> IZero], rc, FALSE, errs)
  IN IF rc = 0 THEN Bad(s, [error |-> errs]) ELSE r

Put(s, k, obj) == TLCEval([s EXCEPT ![k] = obj])

DefaultWords == 100                       \* a number of no stated size
MinCap(bits, wb) == LET w == (bits + 8*wb - 1) \div (8*wb) IN IF bits <= 0 THEN DefaultWords ELSE IF w < 2 THEN 2 ELSE w

Create(s, e, wb, r, minx, v) ==
  IF e.rc # 0 THEN If(Failed(e) /\ e.rc = OUT_OF_MEMORY, s, "a new number")
  ELSE LET p == SnapOf(e, r)
       IN If(~Failed(e) /\ p.x >= minx /\ Holds(p, [x |-> p.x, v |-> v], wb), Put(s, r, [x |-> p.x, v |-> v]), [capacity |-> minx, value |-> v])

StepNum(s, e, wb) ==
  LET V(k) == s[k].v
      X(k) == s[k].x
      W(v) == Words(v, wb)
      Void(r, v) == Settle(s, e, wb, (r :> v), 0, TRUE, {})
      Arith(r, v, must, errs) == Settle(s, e, wb, (r :> v), e.rc, must, errs)
      Pure(ok, why) == IF \A i \in 1..Len(e.o) : Holds(e.o[i], s[e.o[i].k], wb) THEN If(ok, s, why) ELSE Bad(s, "operands unchanged")
      Val == MkInt(e.v.s, e.v.m)
  IN CASE e.op = "bn" -> Create(s, e, wb, e.r, MinCap(e.bits, wb), IZero)
       [] e.op = "bw" -> Create(s, e, wb, e.r, IF e.w <= 0 THEN DefaultWords ELSE Mx(e.w, 2), IZero)
       [] e.op = "bclone" -> Create(s, e, wb, e.r, W(V(e.a)), V(e.a))
       [] e.op \in {"bfree", "bcfree"} -> Ok(Put(s, e.r, NoNum))
       [] e.op = "bput" -> Ok(Put(s, e.r, [x |-> X(e.r), v |-> SnapInt(SnapOf(e, e.r))]))
       [] e.op = "bset" -> Arith(e.r, V(e.a), W(V(e.a)) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bsetv" -> Void(e.r, Val)
       [] e.op \in {"bdec", "bdecu"} ->
            LET v == IF e.op = "bdec" THEN IFromTwos(e.in) ELSE MkInt(0, NFromBytes(e.in))
            IN Arith(e.r, v, e.in # <<>> /\ W(v) <= X(e.r), IF e.in = <<>> THEN {INVALID_PARAM} ELSE {NUMBER_SIZE})
       [] e.op = "benc" ->
            LET b == IToTwos(V(e.a))
            IN IF Failed(e) THEN Pure(e.rc = 0 /\ e.last = 0, "0")
               ELSE IF e.n < 0 THEN Pure(e.rc = Len(b) /\ e.last = 0, Len(b))
               ELSE IF e.n < Len(b) THEN Pure(e.rc = 0 /\ e.last <= e.n, 0)
               ELSE Pure(e.rc = Len(b) /\ e.out = b /\ e.last <= e.n, b)
       [] e.op = "bencf" ->
            LET b0 == NToBytes(V(e.a).m)
                b == IF b0 = <<>> THEN <<0>> ELSE b0
            IN IF V(e.a).s = 1 THEN Pure(e.rc = 0 /\ e.last <= Mx(e.n, 0), 0)
               ELSE IF e.n < 0 THEN Pure(e.rc = Len(b) /\ e.last = 0, Len(b))
               ELSE IF e.n < Len(b) THEN Pure(e.rc = 0 /\ e.last <= e.n, 0)
               ELSE LET f == [i \in 1..(e.n - Len(b)) |-> 0] \o b
                    IN Pure(e.rc = e.n /\ e.out = f /\ e.last <= e.n, f)
       [] e.op = "bcmp" -> Pure(e.rc = ICmp(V(e.a), V(e.b)), ICmp(V(e.a), V(e.b)))
       [] e.op = "bcmpv" -> Pure(e.rc = ICmp(V(e.a), Val), ICmp(V(e.a), Val))
       [] e.op = "bbl" -> LET n == NBitLen(V(e.a).m) IN Pure(e.rc = n \/ (n = 0 /\ e.rc = 1), n)
       [] e.op \in {"badd", "bsub"} ->
            LET v == IF e.op = "badd" THEN IAdd(V(e.a), V(e.b)) ELSE ISub(V(e.a), V(e.b))
            IN Arith(e.r, v, W(v) <= X(e.r) /\ W(V(e.a)) <= X(e.r) /\ W(V(e.b)) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bmul" ->
            LET v == IMul(V(e.a), V(e.b))
            IN Arith(e.r, v, v = IZero \/ ProductWords(V(e.a), V(e.b), wb) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bsqr" ->
            LET v == IMul(V(e.a), V(e.a))
            IN Arith(e.r, v, v = IZero \/ ProductWords(V(e.a), V(e.a), wb) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bdbl" ->
            LET v == IShl(V(e.a), 1) IN Arith(e.r, v, W(v) <= X(e.r) /\ W(V(e.a)) <= X(e.r), {NUMBER_SIZE})
       \* on magnitudes, in place: the sign of the first operand stays
       [] e.op = "baddr" ->
            LET sign == IF V(e.r) = IZero THEN SnapOf(e, e.r).s ELSE V(e.r).s     \* the sign of a zero is not determined
                v == MkInt(sign, NAdd(V(e.r).m, V(e.b).m)) IN Arith(e.r, v, W(v) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bsubr" ->
            IF NLt(V(e.r).m, V(e.b).m) THEN Bad(s, "a subtrahend that is not larger")
            ELSE Arith(e.r, MkInt(V(e.r).s, NSub(V(e.r).m, V(e.b).m)), TRUE, {})
       [] e.op = "binv" -> Void(e.r, INeg(V(e.r)))
       [] e.op = "bget" ->
            LET m == V(e.a).m
                Low(n) == NMod(m, NPow2(n))
                w == Low(8*wb)
                Flag(c) == IF c THEN 1 ELSE 0
                is == <<Flag(m = <<>>), Flag(V(e.a) = MkInt(0, NOne)), Flag(V(e.a) = MkInt(0, NTwo)), Flag(~NOdd(m)), IF m = <<>> THEN e.is[5] ELSE V(e.a).s>>
            IN Pure(/\ e.len = W(V(e.a)) /\ e.max = X(e.a) /\ e.lo.m = Low(32) /\ e.q.m = Low(64) /\ e.w.m = w /\ e.pos = NBitLen(w) - 1 /\ e.is = is,
                    [low64 |-> Low(64), words |-> W(V(e.a)), highestBit |-> NBitLen(w) - 1])
       [] e.op = "bmod" ->
            IF V(e.b) = IZero THEN Refuse(s, e, wb, {e.r}, e.rc, {DIV_BY_ZERO, NUMBER_SIZE})
            ELSE LET v == MkInt(V(e.a).s, NMod(V(e.a).m, V(e.b).m)) IN Arith(e.r, v, W(V(e.b)) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bdiv" ->
            IF V(e.b) = IZero THEN Refuse(s, e, wb, {e.q, e.r}, e.rc, {DIV_BY_ZERO, NUMBER_SIZE})
            ELSE LET d == IFloorDivMod(V(e.a), V(e.b))
                     ql == W(V(e.a)) - W(V(e.b)) + 1
                 IN Settle(s, e, wb, (e.q :> d[1]) @@ (e.r :> d[2]), e.rc,
                           W(V(e.b)) <= X(e.r) /\ ql <= X(e.q) /\ W(d[1]) <= X(e.q), {NUMBER_SIZE})
       [] e.op = "baddv" -> LET v == IAdd(V(e.r), Val) IN Arith(e.r, v, W(v) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bsubv" -> LET v == ISub(V(e.r), Val) IN Arith(e.r, v, W(v) <= X(e.r), {NUMBER_SIZE})
       [] e.op = "bmulv" -> LET v == IMul(V(e.r), Val) IN Arith(e.r, v, W(v) <= X(e.r), {NUMBER_SIZE})
       [] e.op \in {"bdivv", "bmodv"} ->
            IF Val = IZero THEN Refuse(s, e, wb, {e.r}, e.rc, {DIV_BY_ZERO, NUMBER_SIZE})
            ELSE LET d == NDivMod(V(e.r).m, Val.m)
                     v == IF e.op = "bmodv" THEN V(e.r) ELSE MkInt(IF V(e.r).s = Val.s THEN 0 ELSE 1, d[1])
                 IN IF e.rc = 0 /\ e.nr = 0 /\ ~(e.rem.s = 0 /\ e.rem.m = d[2]) THEN Bad(s, [quotient |-> v, remainder |-> d[2]])
                    ELSE Arith(e.r, v, TRUE, {})
       [] e.op = "bshl" ->   \* a distance beyond 2^24 fits only for zero
            IF V(e.r) = IZero THEN Arith(e.r, IZero, TRUE, {})
            ELSE IF Len(e.v.m) > 2 THEN Refuse(s, e, wb, {e.r}, e.rc, {NUMBER_SIZE})
            ELSE LET k == At(e.v.m, 1) + 4096 * At(e.v.m, 2)
                     wk == (NBitLen(V(e.r).m) + k + 8*wb - 1) \div (8*wb)
                 IN IF wk > X(e.r) THEN Refuse(s, e, wb, {e.r}, e.rc, {NUMBER_SIZE})
                    ELSE Arith(e.r, IShl(V(e.r), k), TRUE, {})
       [] e.op = "bshr" ->
            LET k == At(e.v.m, 1) + 4096 * At(e.v.m, 2)
                v == IF Len(e.v.m) > 2 \/ k >= NBitLen(V(e.r).m) THEN IZero ELSE IShrMag(V(e.r), k)
            IN Arith(e.r, v, TRUE, {})
       [] OTHER -> Bad(s, "a big-number event")

NumOps == {"bn", "bw", "bclone", "bfree", "bcfree", "bput", "bset", "bsetv", "bdec", "bdecu", "benc", "bencf", "bcmp", "bcmpv", "bbl",
           "badd", "bsub", "bmul", "bsqr", "bdbl", "bmod", "bdiv", "baddv", "bsubv", "bmulv", "bdivv", "bmodv", "bshl", "bshr",
           "baddr", "bsubr", "binv", "bget"}
====
