---- MODULE Words ----
(* Machine words.  TLC integers are 32-bit signed, so a 32-bit word is <<hi16, lo16>>
   and a 64-bit word is <<w3, w2, w1, w0>> (16 bits each, most significant first).
   Bytes are integers 0..255, byte strings are sequences of bytes. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>

Min2(a, b) == IF a < b THEN a ELSE b

----
\* 32-bit words
Zero32 == <<0, 0>>
Add32(a, b) == LET l == a[2] + b[2] IN << (a[1] + b[1] + (l \div 65536)) % 65536, l % 65536 >>
Sub32(a, b) == LET l == 65536 + a[2] - b[2] IN << (65535 + a[1] - b[1] + (l \div 65536)) % 65536, l % 65536 >>
Xor32(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
And32(a, b) == << a[1] & b[1], a[2] & b[2] >>
Or32(a, b)  == << a[1] | b[1], a[2] | b[2] >>
Not32(a)    == << 65535 - a[1], 65535 - a[2] >>
RotL32(a, n) ==
  IF n = 0 THEN a
  ELSE IF n = 16 THEN <<a[2], a[1]>>
  ELSE IF n < 16 THEN
       << (a[1] % P2[17-n]) * P2[n+1] + (a[2] \div P2[17-n]), (a[2] % P2[17-n]) * P2[n+1] + (a[1] \div P2[17-n]) >>
  ELSE LET m == n - 16 IN
       << (a[2] % P2[17-m]) * P2[m+1] + (a[1] \div P2[17-m]), (a[1] % P2[17-m]) * P2[m+1] + (a[2] \div P2[17-m]) >>
RotR32(a, n) == RotL32(a, 32 - n)
ShR32(a, n) == IF n >= 16 THEN <<0, a[1] \div P2[n-15]>>
               ELSE << a[1] \div P2[n+1], (a[2] \div P2[n+1]) + (a[1] % P2[n+1]) * P2[17-n] >>

W32BE(s, o) == << s[o+1]*256 + s[o+2], s[o+3]*256 + s[o+4] >>   \* word at byte offset o (0-based)
W32LE(s, o) == << s[o+4]*256 + s[o+3], s[o+2]*256 + s[o+1] >>
Bytes32BE(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>
Bytes32LE(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>

----
\* 64-bit words
Add64(a, b) ==
  LET l0 == a[4] + b[4]
      l1 == a[3] + b[3] + (l0 \div 65536)
      l2 == a[2] + b[2] + (l1 \div 65536)
      l3 == a[1] + b[1] + (l2 \div 65536)
  IN << l3 % 65536, l2 % 65536, l1 % 65536, l0 % 65536 >>
Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
And64(a, b) == << a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4] >>
Not64(a)    == << 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>
RotR64(a, n) ==
  LET q == n \div 16
      r == n % 16
      b == CASE q = 0 -> a
             [] q = 1 -> <<a[4], a[1], a[2], a[3]>>
             [] q = 2 -> <<a[3], a[4], a[1], a[2]>>
             [] OTHER -> <<a[2], a[3], a[4], a[1]>>
      d == P2[r+1]
      u == P2[17-r]
  IN IF r = 0 THEN b
     ELSE << (b[1] \div d) + (b[4] % d) * u, (b[2] \div d) + (b[1] % d) * u,
             (b[3] \div d) + (b[2] % d) * u, (b[4] \div d) + (b[3] % d) * u >>
ShR64(a, n) ==   \* n < 16
  LET d == P2[n+1]
      u == P2[17-n]
  IN << (a[1] \div d), (a[2] \div d) + (a[1] % d) * u, (a[3] \div d) + (a[2] % d) * u, (a[4] \div d) + (a[3] % d) * u >>
W64BE(s, o) == << s[o+1]*256 + s[o+2], s[o+3]*256 + s[o+4], s[o+5]*256 + s[o+6], s[o+7]*256 + s[o+8] >>
Bytes64BE(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256, w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256 >>

----
\* byte strings
XorBytes(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Repeat(x, n) == TLCEval([i \in 1..n |-> x])
FlattenWords(ws, F(_)) == FoldLeft(LAMBDA acc, w : acc \o F(w), <<>>, ws)
Iota(n) == [i \in 1..n |-> i]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
====
