---- MODULE Ciphers ----
(* The block permutations as pure operators over byte sequences.
   Sched(c, key) is the expanded key, Enc(c, ks, b) and Dec(c, ks, b) work on one block. *)
EXTENDS Words, Tables, IOUtils

Ciphers == {"aes", "des", "seed", "aria", "blowfish"}
BlkLen(c) == IF c \in {"des", "blowfish"} THEN 8 ELSE 16

----
\* AES (FIPS 197); the state is the 16 input bytes in order (column major)
RECURSIVE AesRcon(_)
AesRcon(i) == IF i = 1 THEN 1 ELSE XT[AesRcon(i-1) + 1]
AesSub4(w) == <<AES_S[w[1]+1], AES_S[w[2]+1], AES_S[w[3]+1], AES_S[w[4]+1]>>
AesSched(key) ==
  LET nk == Len(key) \div 4
      nr == nk + 6
      w0 == [i \in 1..nk |-> SubSeq(key, 4*i - 3, 4*i)]
      step(w, i) ==   \* i: 0-based index of the new word
        LET p == w[i]
            q == w[i - nk + 1]
            t == IF i % nk = 0
                 THEN LET s == AesSub4(<<p[2], p[3], p[4], p[1]>>) IN <<s[1] ^^ AesRcon(i \div nk), s[2], s[3], s[4]>>
                 ELSE IF nk > 6 /\ i % nk = 4 THEN AesSub4(p) ELSE p
        IN Append(w, XorBytes(q, t))
      w == FoldLeft(step, w0, [i \in 1..(4*(nr+1) - nk) |-> i + nk - 1])
  IN TLCEval([r \in 1..(nr+1) |-> w[4*r-3] \o w[4*r-2] \o w[4*r-1] \o w[4*r]])
AesSR  == <<1,6,11,16,5,10,15,4,9,14,3,8,13,2,7,12>>     \* ShiftRows source positions
AesISR == <<1,14,11,8,5,2,15,12,9,6,3,16,13,10,7,4>>
AesMixCol(a) ==
  LET t == (a[1] ^^ a[2]) ^^ (a[3] ^^ a[4])
  IN << (a[1] ^^ t) ^^ XT[(a[1] ^^ a[2]) + 1], (a[2] ^^ t) ^^ XT[(a[2] ^^ a[3]) + 1],
        (a[3] ^^ t) ^^ XT[(a[3] ^^ a[4]) + 1], (a[4] ^^ t) ^^ XT[(a[4] ^^ a[1]) + 1] >>
AesIMixCol(a) ==
  LET u == XT[XT[(a[1] ^^ a[3]) + 1] + 1]
      v == XT[XT[(a[2] ^^ a[4]) + 1] + 1]
  IN AesMixCol(<<a[1] ^^ u, a[2] ^^ v, a[3] ^^ u, a[4] ^^ v>>)
AesMix(s, F(_)) == F(SubSeq(s, 1, 4)) \o F(SubSeq(s, 5, 8)) \o F(SubSeq(s, 9, 12)) \o F(SubSeq(s, 13, 16))
AesEnc(ks, b) ==
  LET nr == Len(ks) - 1
      sub(s) == TLCEval([i \in 1..16 |-> AES_S[s[AesSR[i]] + 1]])
      s1 == FoldLeft(LAMBDA s, r : XorBytes(AesMix(sub(s), AesMixCol), ks[r+1]), XorBytes(b, ks[1]), Iota(nr - 1))
  IN XorBytes(sub(s1), ks[nr+1])
AesDec(ks, b) ==
  LET nr == Len(ks) - 1
      isub(s) == TLCEval([i \in 1..16 |-> AES_SI[s[AesISR[i]] + 1]])
      s1 == FoldLeft(LAMBDA s, r : AesMix(XorBytes(isub(s), ks[nr + 1 - r]), AesIMixCol), XorBytes(b, ks[nr+1]), Iota(nr - 1))
  IN XorBytes(isub(s1), ks[1])

----
\* DES and triple DES (FIPS 46-3), on bit sequences
DES_IP == TLCEval([i \in 1..64 |-> LET r == (i-1) \div 8 IN 58 - 8*((i-1) % 8) + (IF r < 4 THEN 2*r ELSE 2*(r-4) - 1)])
DES_FP == TLCEval([i \in 1..64 |-> CHOOSE j \in 1..64 : DES_IP[j] = i])
DES_E  == TLCEval([i \in 1..48 |-> LET g == (i-1) \div 6
                               k == (i-1) % 6 IN ((4*g + k - 1 + 32) % 32) + 1])
DES_P  == <<16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25>>
DES_PC1 == <<57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
             63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4>>
DES_PC2 == <<14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
             41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32>>
DES_SH == <<1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1>>
DES_S0 == <<
 <<14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7, 0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,
   4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0, 15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13>>,
 <<15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10, 3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,
   0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15, 13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9>>,
 <<10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8, 13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,
   13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7, 1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12>>,
 <<7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15, 13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,
   10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4, 3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14>>,
 <<2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9, 14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,
   4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14, 11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3>>,
 <<12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11, 10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,
   9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6, 4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13>>,
 <<4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1, 13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,
   1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2, 6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12>>,
 <<13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7, 1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,
   7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8, 2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11>> >>
(* The implementation is known to deviate from FIPS 46-3 in one S-box entry (S1, row 3, column 15: 0 instead of 13);
   with DES_DEV set, "des" is DES with exactly that entry changed (see known-findings). *)
DesDeviates == "DES_DEV" \in DOMAIN IOEnv
DES_S == TLCEval([i \in 1..8 |-> IF i = 1 /\ DesDeviates THEN [DES_S0[1] EXCEPT ![64] = 0] ELSE DES_S0[i]])
Bits(bytes) == TLCEval([i \in 1..(8*Len(bytes)) |-> (bytes[(i-1) \div 8 + 1] \div P2[8 - ((i-1) % 8)]) % 2])
UnBits(bits) == TLCEval([i \in 1..(Len(bits) \div 8) |->
   LET o == 8*(i-1) IN 128*bits[o+1] + 64*bits[o+2] + 32*bits[o+3] + 16*bits[o+4] + 8*bits[o+5] + 4*bits[o+6] + 2*bits[o+7] + bits[o+8]])
Perm(t, b) == TLCEval([i \in 1..Len(t) |-> b[t[i]]])
Rotl(s, n) == SubSeq(s, n+1, Len(s)) \o SubSeq(s, 1, n)
DesSched(key) ==
  LET cd == Perm(DES_PC1, Bits(key))
      st == FoldLeft(LAMBDA a, i : LET c == Rotl(a.c, DES_SH[i])
                                       d == Rotl(a.d, DES_SH[i])
                                   IN [c |-> c, d |-> d, k |-> Append(a.k, Perm(DES_PC2, c \o d))],
                     [c |-> SubSeq(cd, 1, 28), d |-> SubSeq(cd, 29, 56), k |-> <<>>], Iota(16))
  IN st.k
DesF(r, k) ==
  LET x == TLCEval([i \in 1..48 |-> (r[DES_E[i]] + k[i]) % 2])
      s == TLCEval([g \in 1..8 |-> LET o == 6*(g-1) IN
              DES_S[g][32*x[o+1] + 16*x[o+6] + 8*x[o+2] + 4*x[o+3] + 2*x[o+4] + x[o+5] + 1]])
  IN TLCEval([i \in 1..32 |-> (s[(DES_P[i] - 1) \div 4 + 1] \div P2[4 - ((DES_P[i] - 1) % 4)]) % 2])
DesBlock(ks, b) ==
  LET x == Perm(DES_IP, Bits(b))
      st == FoldLeft(LAMBDA a, k : [l |-> a.r, r |-> LET f == DesF(a.r, k) IN TLCEval([i \in 1..32 |-> (a.l[i] + f[i]) % 2])],
                     [l |-> SubSeq(x, 1, 32), r |-> SubSeq(x, 33, 64)], ks)
  IN UnBits(Perm(DES_FP, st.r \o st.l))
\* the sequence of DES passes of a key: each is the list of round keys in order of use
DesSchedAll(key) ==
  LET n == Len(key) \div 8
      k1 == DesSched(SubSeq(key, 1, 8))
      k2 == DesSched(SubSeq(key, 9, 16))
      k3 == IF n = 3 THEN DesSched(SubSeq(key, 17, 24)) ELSE k1
  IN IF n = 1 THEN <<k1>> ELSE <<k1, Reverse(k2), k3>>
DesEnc(ks, b) == FoldLeft(LAMBDA x, k : DesBlock(k, x), b, ks)
DesDec(ks, b) == FoldLeft(LAMBDA x, k : DesBlock(Reverse(k), x), b, Reverse(ks))

----
\* Blowfish
I16bf == Iota(16)
BfKeyWord(key, i) ==   \* i = 1..18
  LET at(j) == key[((4*(i-1) + j) % Len(key)) + 1]
  IN <<at(0)*256 + at(1), at(2)*256 + at(3)>>
BfF(S, x) == Add32(Xor32(Add32(S[1][(x[1] \div 256) + 1], S[2][(x[1] % 256) + 1]), S[3][(x[2] \div 256) + 1]), S[4][(x[2] % 256) + 1])
BfCrypt(P, S, l, r) ==     \* P: 18 subkeys in order of use
  LET st == FoldLeft(LAMBDA a, i : LET x == Xor32(a[1], P[i]) IN <<Xor32(a[2], BfF(S, x)), x>>, <<l, r>>, I16bf)
  IN <<Xor32(st[2], P[18]), Xor32(st[1], P[17])>>
BfSched(key) ==
  LET P0 == TLCEval([i \in 1..18 |-> Xor32(BF_P[i], BfKeyWord(key, i))])
      S0 == <<BF_S0, BF_S1, BF_S2, BF_S3>>
      a1 == FoldLeft(LAMBDA a, i : LET e == BfCrypt(a.P, S0, a.l, a.r)
                                   IN [l |-> e[1], r |-> e[2], P |-> [a.P EXCEPT ![2*i-1] = e[1], ![2*i] = e[2]]],
                     [l |-> Zero32, r |-> Zero32, P |-> P0], Iota(9))
      a2 == FoldLeft(LAMBDA a, k :
                       LET e == BfCrypt(a1.P, a.S, a.l, a.r)
                           t == (k - 1) \div 128 + 1
                           j == 2*((k - 1) % 128) + 1
                       IN [l |-> e[1], r |-> e[2], S |-> [a.S EXCEPT ![t][j] = e[1], ![t][j+1] = e[2]]],
                     [l |-> a1.l, r |-> a1.r, S |-> S0], Iota(512))
  IN [P |-> a1.P, S |-> a2.S]
BfBlock(P, S, b) == LET e == BfCrypt(P, S, W32BE(b, 0), W32BE(b, 4)) IN Bytes32BE(e[1]) \o Bytes32BE(e[2])

----
\* SEED (RFC 4269)
SeedG(x) ==
  LET y0 == SEED_S1[(x[2] % 256) + 1]
      y1 == SEED_S2[(x[2] \div 256) + 1]
      y2 == SEED_S1[(x[1] % 256) + 1]
      y3 == SEED_S2[(x[1] \div 256) + 1]
      z(a, b, c, d) == ((y0 & a) ^^ (y1 & b)) ^^ ((y2 & c) ^^ (y3 & d))
  IN << z(63, 252, 243, 207)*256 + z(207, 63, 252, 243), z(243, 207, 63, 252)*256 + z(252, 243, 207, 63) >>
SeedF(c, d, k) ==
  LET c1 == Xor32(c, k[1])
      g1 == SeedG(Xor32(c1, Xor32(d, k[2])))
      g2 == SeedG(Add32(g1, c1))
      g3 == SeedG(Add32(g2, g1))
  IN << Add32(g3, g2), g3 >>
SeedSched(key) ==
  LET st == FoldLeft(LAMBDA a, i :
        LET k == << SeedG(Sub32(Add32(a.w[1], a.w[3]), SEED_KC[i])), SeedG(Add32(Sub32(a.w[2], a.w[4]), SEED_KC[i])) >>
            w == IF i % 2 = 1
                 THEN LET ab == Bytes32BE(a.w[1]) \o Bytes32BE(a.w[2])
                          s  == <<ab[8]>> \o SubSeq(ab, 1, 7)
                      IN <<W32BE(s, 0), W32BE(s, 4), a.w[3], a.w[4]>>
                 ELSE LET cd == Bytes32BE(a.w[3]) \o Bytes32BE(a.w[4])
                          s  == SubSeq(cd, 2, 8) \o <<cd[1]>>
                      IN <<a.w[1], a.w[2], W32BE(s, 0), W32BE(s, 4)>>
        IN [w |-> w, k |-> Append(a.k, k)],
        [w |-> <<W32BE(key, 0), W32BE(key, 4), W32BE(key, 8), W32BE(key, 12)>>, k |-> <<>>], I16bf)
  IN st.k
SeedBlock(ks, b) ==
  LET st == FoldLeft(LAMBDA a, k : LET f == SeedF(a[3], a[4], k) IN <<a[3], a[4], Xor32(a[1], f[1]), Xor32(a[2], f[2])>>,
                     <<W32BE(b, 0), W32BE(b, 4), W32BE(b, 8), W32BE(b, 12)>>, ks)
  IN Bytes32BE(st[3]) \o Bytes32BE(st[4]) \o Bytes32BE(st[1]) \o Bytes32BE(st[2])

----
\* ARIA (RFC 5794)
ARIA_A == << <<3,4,6,8,9,13,14>>, <<2,5,7,8,9,12,15>>, <<1,4,6,10,11,12,15>>, <<0,5,7,10,11,13,14>>,
             <<0,2,5,8,11,14,15>>, <<1,3,4,9,10,14,15>>, <<0,2,7,9,10,12,13>>, <<1,3,6,8,11,12,13>>,
             <<0,1,4,7,10,13,15>>, <<0,1,5,6,11,12,14>>, <<2,3,5,6,8,13,15>>, <<2,3,4,7,9,12,14>>,
             <<1,2,6,7,9,11,12>>, <<0,3,6,7,8,10,13>>, <<0,3,4,5,9,11,14>>, <<1,2,4,5,8,10,15>> >>
AriaA(x) == TLCEval([i \in 1..16 |-> LET t == ARIA_A[i] IN
   ((x[t[1]+1] ^^ x[t[2]+1]) ^^ (x[t[3]+1] ^^ x[t[4]+1])) ^^ ((x[t[5]+1] ^^ x[t[6]+1]) ^^ x[t[7]+1])])
AriaSB == TLCEval(<<AES_S, ARIA_S2, AES_SI, ARIA_S2I>>)
AriaSL1(x) == TLCEval([i \in 1..16 |-> AriaSB[((i-1) % 4) + 1][x[i] + 1]])
AriaSL2(x) == TLCEval([i \in 1..16 |-> AriaSB[((i+1) % 4) + 1][x[i] + 1]])
AriaFO(d, k) == AriaA(AriaSL1(XorBytes(d, k)))
AriaFE(d, k) == AriaA(AriaSL2(XorBytes(d, k)))
RotRBytes(x, n) ==   \* rotate a 16-byte string right by n bits
  LET q == n \div 8
      r == n % 8
      at(i) == x[((i - 1 - q + 32) % 16) + 1]
  IN TLCEval([i \in 1..16 |-> (at(i) \div P2[r+1]) + (at(i + 15) % P2[r+1]) * P2[9-r]])
AriaSched(key) ==   \* round keys in order of use
  LET n  == Len(key)
      o  == CASE n = 16 -> 0 [] n = 24 -> 1 [] OTHER -> 2
      ck(j) == ARIA_C[((j + o) % 3) + 1]
      kr == SubSeq(key, 17, n) \o Repeat(0, 32 - n)
      w0 == SubSeq(key, 1, 16)
      w1 == XorBytes(AriaFO(w0, ck(0)), kr)
      w2 == XorBytes(AriaFE(w1, ck(1)), w0)
      w3 == XorBytes(AriaFO(w2, ck(2)), w1)
      w  == <<w0, w1, w2, w3>>
      rot == <<19, 31, 67, 97, 109>>
      ek(i) == LET g == (i-1) \div 4
                   j == (i-1) % 4
               IN IF j < 3 THEN XorBytes(w[j+1], RotRBytes(w[j+2], rot[g+1]))
                  ELSE XorBytes(RotRBytes(w[1], rot[g+1]), w[4])
      nr == (n + 32) \div 4
  IN TLCEval([i \in 1..(nr+1) |-> ek(i)])
AriaInv(ek) == LET n == Len(ek) IN TLCEval([i \in 1..n |-> IF i \in {1, n} THEN ek[n + 1 - i] ELSE AriaA(ek[n + 1 - i])])
AriaBlock(ks, b) ==
  LET n == Len(ks) - 1
      x == FoldLeft(LAMBDA s, i : IF i % 2 = 1 THEN AriaFO(s, ks[i]) ELSE AriaFE(s, ks[i]), b, Iota(n - 1))
  IN XorBytes(AriaSL2(XorBytes(x, ks[n])), ks[n+1])

----
(* Expanded keys: a pair of the key material used for encryption and for decryption *)
Sched(c, key) ==
  CASE c = "aes" -> LET k == AesSched(key) IN [e |-> k, d |-> k]
    [] c = "des" -> LET k == DesSchedAll(key) IN [e |-> k, d |-> k]
    [] c = "seed" -> LET k == SeedSched(key) IN [e |-> k, d |-> Reverse(k)]
    [] c = "aria" -> LET k == AriaSched(key) IN [e |-> k, d |-> AriaInv(k)]
    [] c = "blowfish" -> LET k == BfSched(key) IN [e |-> k, d |-> [P |-> Reverse(k.P), S |-> k.S]]
Enc(c, ks, b) ==
  CASE c = "aes" -> AesEnc(ks.e, b)
    [] c = "des" -> DesEnc(ks.e, b)
    [] c = "seed" -> SeedBlock(ks.e, b)
    [] c = "aria" -> AriaBlock(ks.e, b)
    [] c = "blowfish" -> BfBlock(ks.e.P, ks.e.S, b)
Dec(c, ks, b) ==
  CASE c = "aes" -> AesDec(ks.d, b)
    [] c = "des" -> DesDec(ks.d, b)
    [] c = "seed" -> SeedBlock(ks.d, b)
    [] c = "aria" -> AriaBlock(ks.d, b)
    [] c = "blowfish" -> BfBlock(ks.d.P, ks.d.S, b)
====
