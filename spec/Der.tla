---- MODULE Der ----
(* BER/DER: reading the element structure of a byte string, and writing RSA keys canonically. *)
EXTENDS BigInt
None == [type |-> -1, off |-> 0, len |-> 0, kids |-> <<>>]
Fail == [ok |-> FALSE, nodes |-> <<>>, next |-> 0, strict |-> FALSE]
Constructed(t) == (t \div 32) % 2 = 1

\* Elements from offset i (0-based) to `end', inside `depth' open elements.  kind: "def" definite-length contents,
\* "indef" contents closed by an end-of-contents element, "top" the whole input.
\* strict: everything read is well-formed BER; the reader also tolerates an open indefinite element that is closed by
\* the end of its surroundings, and an end-of-contents element that ends definite-length contents.
\* Offsets are bounded by Len(data); lengths beyond 2^31 are errors.
MaxDepth == 10
RECURSIVE Elements(_, _, _, _, _)
LOCAL BigLen(bs) == NFromBytes(bs)
Header(data, i, end) ==   \* [ok, type, len (-1: indefinite), body]
  IF i + 2 > end THEN [ok |-> FALSE]
  ELSE LET t == data[i + 1]
           l == data[i + 2]
       IN IF l < 128 THEN [ok |-> i + 2 + l <= end, type |-> t, len |-> l, body |-> i + 2]
          ELSE IF l = 128 THEN [ok |-> Constructed(t), type |-> t, len |-> -1, body |-> i + 2]
          ELSE LET k == l - 128
               IN IF k > 4 \/ i + 2 + k > end THEN [ok |-> FALSE]
                  ELSE LET v == BigLen(SubSeq(data, i + 3, i + 2 + k))
                       IN IF NBitLen(v) > 24 THEN [ok |-> FALSE]      \* longer than any input here
                          ELSE LET n == At(v, 1) + 4096 * At(v, 2)
                               IN [ok |-> i + 2 + k + n <= end, type |-> t, len |-> n, body |-> i + 2 + k]

Elements(data, i, end, depth, kind) ==
  IF i >= end THEN [ok |-> TRUE, nodes |-> <<>>, next |-> i, strict |-> kind # "indef"]
  ELSE LET h == Header(data, i, end)
       IN IF ~h.ok THEN Fail
          ELSE IF Constructed(h.type) THEN
                 IF depth >= MaxDepth THEN Fail
                 ELSE LET e2 == IF h.len < 0 THEN end ELSE h.body + h.len
                          c == Elements(data, h.body, e2, depth + 1, IF h.len < 0 THEN "indef" ELSE "def")
                      IN IF ~c.ok THEN Fail
                         ELSE LET after == IF h.len < 0 THEN c.next ELSE e2
                                  node == [type |-> h.type, off |-> h.body, len |-> h.len, kids |-> c.nodes]
                                  r == Elements(data, after, end, depth, kind)
                              IN IF ~r.ok THEN Fail
                                 ELSE [ok |-> TRUE, nodes |-> <<node>> \o r.nodes, next |-> r.next,
                                       strict |-> c.strict /\ r.strict /\ h.type % 32 # 31]
          ELSE IF h.type = 0 /\ h.len = 0 THEN
                 [ok |-> TRUE, nodes |-> <<[type |-> 0, off |-> h.body, len |-> 0, kids |-> <<>>]>>, next |-> h.body, strict |-> kind = "indef"]
          ELSE LET node == [type |-> h.type, off |-> h.body, len |-> h.len, kids |-> <<>>]
                   r == Elements(data, h.body + h.len, end, depth, kind)
               IN IF ~r.ok THEN Fail
                  ELSE [ok |-> TRUE, nodes |-> <<node>> \o r.nodes, next |-> r.next, strict |-> r.strict /\ h.type % 32 # 31]

Parse(data) == LET r == Elements(data, 0, Len(data), 0, "top")
               IN [ok |-> r.ok, root |-> IF r.nodes = <<>> THEN None ELSE r.nodes[1], one |-> Len(r.nodes) = 1, strict |-> r.strict]
Kid(n, i) == IF i <= Len(n.kids) THEN n.kids[i] ELSE None
Content(data, n) == SubSeq(data, n.off + 1, n.off + n.len)

----
IsInt(n) == n.type = 2 /\ n.len > 0
IntAt(data, n) == IFromTwos(Content(data, n))
MinimalInt(data, n) == LET c == Content(data, n) IN Len(c) = 1 \/ ~((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128))
RsaOid == <<42, 134, 72, 134, 247, 13, 1, 1, 1>>

GoodModulus(n) == n.s = 0 /\ NOdd(n.m)
NoKey == [ok |-> FALSE, strict |-> FALSE, nums |-> <<>>]
IntKids(data, root, from, count) ==
  IF \A i \in from..(from + count - 1) : IsInt(Kid(root, i)) THEN [i \in 1..count |-> IntAt(data, Kid(root, from + i - 1))] ELSE <<>>
Sequence(n) == n.type = 48
\* the integers of a PKCS#1 structure; strict: the structure is exactly that of the standard, with a usable modulus
PubKey(data) ==
  LET p == Parse(data)
      nums == IF p.ok THEN IntKids(data, p.root, 1, 2) ELSE <<>>
  IN IF nums = <<>> THEN NoKey
     ELSE IF ~GoodModulus(nums[1]) THEN NoKey
     ELSE [ok |-> TRUE, nums |-> nums,
           strict |-> /\ p.strict /\ p.one /\ Sequence(p.root) /\ NLt(NOne, nums[1].m)
                      /\ \A i \in 1..2 : nums[i].s = 0 /\ nums[i].m # <<>>
                      /\ \A i \in 3..Len(p.root.kids) : p.root.kids[i].type = 0]
PrivKey(data) ==
  LET p == Parse(data)
      nums == IF p.ok THEN IntKids(data, p.root, 2, 8) ELSE <<>>
  IN IF nums = <<>> THEN NoKey
     ELSE IF ~GoodModulus(nums[1]) THEN NoKey
     ELSE [ok |-> TRUE, nums |-> nums,
           strict |-> /\ p.strict /\ p.one /\ Sequence(p.root) /\ NLt(NOne, nums[1].m)
                      /\ IsInt(Kid(p.root, 1)) /\ IntAt(data, Kid(p.root, 1)) = IZero
                      /\ \A i \in 1..8 : nums[i].s = 0 /\ nums[i].m # <<>>
                      /\ \A i \in 10..Len(p.root.kids) : p.root.kids[i].type = 0]
\* PKCS#8 / SubjectPublicKeyInfo
AnyKey(data) ==
  LET p == Parse(data)
      priv == p.ok /\ Kid(p.root, 1).type = 2
      alg == Kid(p.root, IF priv THEN 2 ELSE 1)
      val == Kid(p.root, IF priv THEN 3 ELSE 2)
      oid == Kid(alg, 1)
      tail == IF priv THEN 4 ELSE 3
  IN IF ~p.ok THEN NoKey
     ELSE IF ~(oid.type = 6 /\ Content(data, oid) = RsaOid) THEN NoKey
     ELSE LET k == IF priv THEN (IF val.type # 4 THEN NoKey ELSE PrivKey(Content(data, val)))
                   ELSE IF val.type # 3 \/ val.len < 2 THEN NoKey
                   ELSE IF data[val.off + 1] # 0 THEN NoKey
                   ELSE PubKey(Tail(Content(data, val)))
          IN [k EXCEPT !.strict = /\ @ /\ p.strict /\ p.one /\ Sequence(p.root) /\ Sequence(alg)
                                  /\ (priv => IsInt(Kid(p.root, 1)) /\ IntAt(data, Kid(p.root, 1)) = IZero)
                                  /\ Len(alg.kids) >= 2 /\ alg.kids[2].type = 5 /\ alg.kids[2].len = 0
                                  /\ \A i \in 3..Len(alg.kids) : alg.kids[i].type = 0
                                  /\ \A i \in tail..Len(p.root.kids) : p.root.kids[i].type = 0]

----
\* canonical encoding
LenBytes(n) == IF n < 128 THEN <<n>>
               ELSE IF n < 256 THEN <<129, n>>
               ELSE IF n < 65536 THEN <<130, n \div 256, n % 256>>
               ELSE <<131, n \div 65536, (n \div 256) % 256, n % 256>>
Tlv(t, body) == <<t>> \o LenBytes(Len(body)) \o body
IntTlv(a) == Tlv(2, IToTwos(a))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
AlgId == Tlv(48, Tlv(6, RsaOid) \o <<5, 0>>)
PubDer(nums) == Tlv(48, AlgId \o Tlv(3, <<0>> \o Tlv(48, Cat([i \in 1..2 |-> IntTlv(nums[i])]))))
PrivDer(nums) == Tlv(48, IntTlv(IZero) \o AlgId \o Tlv(4, Tlv(48, IntTlv(IZero) \o Cat([i \in 1..8 |-> IntTlv(nums[i])]))))
====
