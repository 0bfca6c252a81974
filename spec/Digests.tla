---- MODULE Digests ----
(* The digest standards as pure operators: initial chaining value, compression of one
   block, and the finishing of a message (padding, length encoding, truncation).
   Chaining values are sequences of words (32-bit or 64-bit); MD2 keeps state and checksum. *)
EXTENDS Words, Tables

Algs == {"md2", "md4", "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "has160"}

BlockLen(alg) == CASE alg = "md2" -> 16
                   [] alg \in {"sha384", "sha512", "sha512_224", "sha512_256"} -> 128
                   [] OTHER -> 64
DigestLen(alg) == CASE alg \in {"md2", "md4", "md5"} -> 16
                    [] alg \in {"sha1", "has160"} -> 20
                    [] alg \in {"sha224", "sha512_224"} -> 28
                    [] alg \in {"sha256", "sha512_256"} -> 32
                    [] alg = "sha384" -> 48
                    [] alg = "sha512" -> 64

IV(alg) == CASE alg = "md2" -> [x |-> Repeat(0, 16), c |-> Repeat(0, 16)]
             [] alg \in {"md4", "md5"} -> MD_H
             [] alg \in {"sha1", "has160"} -> SHA1_H
             [] alg = "sha224" -> SHA224_H
             [] alg = "sha256" -> SHA256_H
             [] alg = "sha384" -> SHA384_H
             [] alg = "sha512" -> SHA512_H
             [] alg = "sha512_224" -> SHA512_224_H
             [] alg = "sha512_256" -> SHA512_256_H

AddState(h, r) == TLCEval([i \in 1..Len(h) |-> Add32(h[i], r[i])])
I16 == Iota(16)
I48 == Iota(48)
I64 == Iota(64)
I80 == Iota(80)

----
\* MD2 (RFC 1319)
Md2Checksum(c, m) ==
  FoldLeft(LAMBDA a, i : LET t == a.t
                             v == a.c[i] ^^ MD2_S[(m[i] ^^ t) + 1]
                         IN [c |-> [a.c EXCEPT ![i] = v], t |-> v],
           [c |-> c, t |-> c[16]], I16).c
Md2Round(a, j) ==   \* one pass over the 48 bytes
  LET r == FoldLeft(LAMBDA b, k : LET v == k ^^ MD2_S[b.t + 1] IN [x |-> Append(b.x, v), t |-> v],
                    [x |-> <<>>, t |-> a.t], a.x)
  IN [x |-> r.x, t |-> (r.t + j - 1) % 256]
Md2State(x, m) ==
  SubSeq(FoldLeft(Md2Round, [x |-> x \o m \o XorBytes(x, m), t |-> 0], Iota(18)).x, 1, 16)
Md2Compress(h, m) == [x |-> Md2State(h.x, m), c |-> Md2Checksum(h.c, m)]

----
\* MD4 (RFC 1320)
F32(x, y, z) == Or32(And32(x, y), And32(Not32(x), z))
G32(x, y, z) == Or32(Or32(And32(x, y), And32(x, z)), And32(y, z))
H32(x, y, z) == Xor32(Xor32(x, y), z)
Words32LE(m) == TLCEval([i \in 1..16 |-> W32LE(m, 4*(i-1))])
Words32BE(m) == TLCEval([i \in 1..16 |-> W32BE(m, 4*(i-1))])
MD4_K1 == Iota(16)
MD4_K2 == <<1,5,9,13,2,6,10,14,3,7,11,15,4,8,12,16>>
MD4_K3 == <<1,9,5,13,3,11,7,15,2,10,6,14,4,12,8,16>>
MD4_S == << <<3,7,11,19>>, <<3,5,9,13>>, <<3,9,11,15>> >>
Md4Step(s, i, w) ==
  LET r == (i - 1) \div 16
      j == ((i - 1) % 16) + 1
      f == CASE r = 0 -> F32(s[2], s[3], s[4])
             [] r = 1 -> Add32(G32(s[2], s[3], s[4]), SQ_K[2])
             [] OTHER -> Add32(H32(s[2], s[3], s[4]), SQ_K[3])
      k == CASE r = 0 -> MD4_K1[j] [] r = 1 -> MD4_K2[j] [] OTHER -> MD4_K3[j]
      v == RotL32(Add32(Add32(s[1], f), w[k]), MD4_S[r+1][((j - 1) % 4) + 1])
  IN << s[4], v, s[2], s[3] >>
Md4Compress(h, m) ==
  LET w == Words32LE(m)
  IN AddState(h, FoldLeft(LAMBDA s, i : Md4Step(s, i, w), h, I48))

----
\* MD5 (RFC 1321)
I32(x, y, z) == Xor32(y, Or32(x, Not32(z)))
MD5_S == << <<7,12,17,22>>, <<5,9,14,20>>, <<4,11,16,23>>, <<6,10,15,21>> >>
Md5Step(s, i, w) ==
  LET r == (i - 1) \div 16
      j == i - 1
      f == CASE r = 0 -> F32(s[2], s[3], s[4])
             [] r = 1 -> F32(s[4], s[2], s[3])
             [] r = 2 -> H32(s[2], s[3], s[4])
             [] OTHER -> I32(s[2], s[3], s[4])
      k == CASE r = 0 -> j % 16 [] r = 1 -> (5*j + 1) % 16 [] r = 2 -> (3*j + 5) % 16 [] OTHER -> (7*j) % 16
      v == RotL32(Add32(Add32(s[1], f), Add32(w[k+1], MD5_T[i])), MD5_S[r+1][(j % 4) + 1])
  IN << s[4], Add32(s[2], v), s[2], s[3] >>
Md5Compress(h, m) ==
  LET w == Words32LE(m)
  IN AddState(h, FoldLeft(LAMBDA s, i : Md5Step(s, i, w), h, I64))

----
\* SHA-1 (FIPS 180-4)
I17_80 == [i \in 1..64 |-> i + 16]
Sha1Sched(m) == FoldLeft(LAMBDA w, t : Append(w, RotL32(Xor32(Xor32(w[t-3], w[t-8]), Xor32(w[t-14], w[t-16])), 1)), m, I17_80)
Sha1K(i) == SQ_K[(i - 1) \div 20 + 2]   \* sqrt 2, 3, 5, 10
Sha1Step(s, i, w) ==
  LET r == (i - 1) \div 20
      f == CASE r = 0 -> F32(s[2], s[3], s[4])
             [] r = 2 -> G32(s[2], s[3], s[4])
             [] OTHER -> H32(s[2], s[3], s[4])
      t == Add32(Add32(RotL32(s[1], 5), f), Add32(Add32(s[5], Sha1K(i)), w[i]))
  IN << t, s[1], RotL32(s[2], 30), s[3], s[4] >>
Sha1Compress(h, m) ==
  LET w == Sha1Sched(Words32BE(m))
  IN AddState(h, FoldLeft(LAMBDA s, i : Sha1Step(s, i, w), h, I80))

----
\* HAS-160 (TTAS.KO-12.0011)
HAS_L == <<
  <<19, 1,2,3,4, 20, 5,6,7,8, 17, 9,10,11,12, 18, 13,14,15,16>>,
  <<19, 4,7,10,13, 20, 16,3,6,9, 17, 12,15,2,5, 18, 8,11,14,1>>,
  <<19, 13,6,15,8, 20, 1,10,3,12, 17, 5,14,7,16, 18, 9,2,11,4>>,
  <<19, 8,3,14,9, 20, 4,15,10,5, 17, 16,11,6,1, 18, 12,7,2,13>> >>
HAS_X == << \* message words whose xor gives the extra words 17..20 of each round
  << <<1,2,3,4>>, <<5,6,7,8>>, <<9,10,11,12>>, <<13,14,15,16>> >>,
  << <<4,7,10,13>>, <<16,3,6,9>>, <<12,15,2,5>>, <<8,11,14,1>> >>,
  << <<13,6,15,8>>, <<1,10,3,12>>, <<5,14,7,16>>, <<9,2,11,4>> >>,
  << <<8,3,14,9>>, <<4,15,10,5>>, <<16,11,6,1>>, <<12,7,2,13>> >> >>
HAS_S1 == <<5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13>>
HAS_S2 == <<10,17,25,30>>
Has160Words(x) ==  \* per round: 16 message words and 4 derived words
  TLCEval([r \in 1..4 |-> x \o [k \in 1..4 |-> LET q == HAS_X[r][k] IN Xor32(Xor32(x[q[1]], x[q[2]]), Xor32(x[q[3]], x[q[4]]))]])
Has160Step(s, i, w) ==
  LET r == (i - 1) \div 20 + 1
      j == ((i - 1) % 20) + 1
      f == CASE r = 1 -> F32(s[2], s[3], s[4])
             [] r = 3 -> Xor32(s[3], Or32(s[2], Not32(s[4])))
             [] OTHER -> H32(s[2], s[3], s[4])
      k == CASE r = 1 -> Zero32 [] OTHER -> SQ_K[r]
      t == Add32(Add32(RotL32(s[1], HAS_S1[j]), f), Add32(Add32(s[5], w[r][HAS_L[r][j]]), k))
  IN << t, s[1], RotL32(s[2], HAS_S2[r]), s[3], s[4] >>
Has160Compress(h, m) ==
  LET w == Has160Words(Words32LE(m))
  IN AddState(h, FoldLeft(LAMBDA s, i : Has160Step(s, i, w), h, I80))

----
\* SHA-224/256 (FIPS 180-4)
Maj32(x, y, z) == Xor32(Xor32(And32(x, y), And32(x, z)), And32(y, z))
Ch32(x, y, z) == Xor32(And32(x, y), And32(Not32(x), z))
BS0(x) == Xor32(Xor32(RotR32(x, 2), RotR32(x, 13)), RotR32(x, 22))
BS1(x) == Xor32(Xor32(RotR32(x, 6), RotR32(x, 11)), RotR32(x, 25))
SS0(x) == Xor32(Xor32(RotR32(x, 7), RotR32(x, 18)), ShR32(x, 3))
SS1(x) == Xor32(Xor32(RotR32(x, 17), RotR32(x, 19)), ShR32(x, 10))
I17_64 == [i \in 1..48 |-> i + 16]
Sha256Sched(m) == FoldLeft(LAMBDA w, i : Append(w, Add32(Add32(SS1(w[i-2]), w[i-7]), Add32(SS0(w[i-15]), w[i-16]))), m, I17_64)
Sha256Step(s, k, w) ==
  LET t1 == Add32(Add32(s[8], BS1(s[5])), Add32(Add32(Ch32(s[5], s[6], s[7]), k), w))
      t2 == Add32(BS0(s[1]), Maj32(s[1], s[2], s[3]))
  IN << Add32(t1, t2), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7] >>
Sha256Compress(h, m) ==
  LET w == Sha256Sched(Words32BE(m))
  IN AddState(h, FoldLeft(LAMBDA s, i : Sha256Step(s, SHA256_K[i], w[i]), h, I64))

\* SHA-384/512
Maj64(x, y, z) == Xor64(Xor64(And64(x, y), And64(x, z)), And64(y, z))
Ch64(x, y, z) == Xor64(And64(x, y), And64(Not64(x), z))
LS0(x) == Xor64(Xor64(RotR64(x, 28), RotR64(x, 34)), RotR64(x, 39))
LS1(x) == Xor64(Xor64(RotR64(x, 14), RotR64(x, 18)), RotR64(x, 41))
TS0(x) == Xor64(Xor64(RotR64(x, 1), RotR64(x, 8)), ShR64(x, 7))
TS1(x) == Xor64(Xor64(RotR64(x, 19), RotR64(x, 61)), ShR64(x, 6))
Sha512Sched(m) == FoldLeft(LAMBDA w, i : Append(w, Add64(Add64(TS1(w[i-2]), w[i-7]), Add64(TS0(w[i-15]), w[i-16]))), m, I17_80)
Sha512Step(s, k, w) ==
  LET t1 == Add64(Add64(s[8], LS1(s[5])), Add64(Add64(Ch64(s[5], s[6], s[7]), k), w))
      t2 == Add64(LS0(s[1]), Maj64(s[1], s[2], s[3]))
  IN << Add64(t1, t2), s[1], s[2], s[3], Add64(s[4], t1), s[5], s[6], s[7] >>
Sha512Compress(h, m) ==
  LET w == Sha512Sched(TLCEval([i \in 1..16 |-> W64BE(m, 8*(i-1))]))
      r == FoldLeft(LAMBDA s, i : Sha512Step(s, SHA512_K[i], w[i]), h, I80)
  IN TLCEval([i \in 1..8 |-> Add64(h[i], r[i])])

----
Compress(alg, h, m) ==
  CASE alg = "md2" -> Md2Compress(h, m)
    [] alg = "md4" -> Md4Compress(h, m)
    [] alg = "md5" -> Md5Compress(h, m)
    [] alg = "sha1" -> Sha1Compress(h, m)
    [] alg = "has160" -> Has160Compress(h, m)
    [] alg \in {"sha224", "sha256"} -> Sha256Compress(h, m)
    [] OTHER -> Sha512Compress(h, m)

(* A message length in bytes is a pair <<q, r>> of whole blocks of 2^24 bytes and the rest;
   its bit length as 8 big-endian bytes. *)
LenZero == <<0, 0>>
LenAdd(n, k) == LET s == n[2] + (k % 16777216) IN << n[1] + (k \div 16777216) + (s \div 16777216), s % 16777216 >>
Len64BE(n) ==
  LET lo == n[2] * 8
      q  == n[1]
      h  == q \div 32          \* bits 32..
  IN << (h \div 16777216) % 256, (h \div 65536) % 256, (h \div 256) % 256, h % 256,
        (lo \div 16777216) + (q % 32) * 8, (lo \div 65536) % 256, (lo \div 256) % 256, lo % 256 >>

Pad(alg, tail, n) ==   \* the padding after the last n-byte message whose last incomplete block is `tail'
  LET bl == BlockLen(alg)
      t  == Len(tail)
  IN IF alg = "md2" THEN Repeat(16 - t, 16 - t)
     ELSE LET ll == IF bl = 128 THEN 16 ELSE 8
              z  == (2*bl - 1 - ll - t) % bl
              L  == Len64BE(n)
              e  == IF alg \in {"md4", "md5", "has160"} THEN Reverse(L)
                    ELSE IF bl = 128 THEN Repeat(0, 8) \o L ELSE L
          IN <<128>> \o Repeat(0, z) \o e

CompressAll(alg, h, bytes) ==   \* bytes: whole blocks
  LET bl == BlockLen(alg)
  IN FoldLeft(LAMBDA c, i : Compress(alg, c, SubSeq(bytes, (i-1)*bl + 1, i*bl)), h, Iota(Len(bytes) \div bl))

Output(alg, h) ==
  CASE alg = "md2" -> h.x
    [] alg \in {"md4", "md5", "has160"} -> FlattenWords(h, Bytes32LE)
    [] BlockLen(alg) = 64 -> Take(FlattenWords(h, Bytes32BE), DigestLen(alg))
    [] OTHER -> Take(FlattenWords(h, Bytes64BE), DigestLen(alg))

\* the chaining value that a complete (untruncated) output stands for
Unoutput(alg, out) ==
  IF alg \in {"md4", "md5", "has160"} THEN [i \in 1..(Len(out) \div 4) |-> W32LE(out, 4*(i-1))]
  ELSE IF BlockLen(alg) = 64 THEN [i \in 1..(Len(out) \div 4) |-> W32BE(out, 4*(i-1))]
  ELSE [i \in 1..(Len(out) \div 8) |-> W64BE(out, 8*(i-1))]

Finish(alg, h, tail, n) ==
  LET p == CompressAll(alg, h, tail \o Pad(alg, tail, n))
      f == IF alg = "md2" THEN Md2Compress(p, p.c) ELSE p
  IN Output(alg, f)

Digest(alg, msg) ==
  LET bl == BlockLen(alg)
      k  == Len(msg) \div bl
  IN Finish(alg, CompressAll(alg, IV(alg), Take(msg, k*bl)), Drop(msg, k*bl), <<Len(msg) \div 16777216, Len(msg) % 16777216>>)
====
