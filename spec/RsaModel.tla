---- MODULE RsaModel ----
(* RSA over toy primes: the construction of a key from two distinct primes of equal length and the operations, for every
   pair of primes and every message; the validity predicate of the specification (Rsa!ValidPriv), which decides about
   imported and generated keys, against the construction and against every single changed component. *)
EXTENDS Rsa
CONSTANTS BitsSet, E
VARIABLES bits, p, q, d, msg, c, m2, pc
vars == <<bits, p, q, d, msg, c, m2, pc>>
PrimeN(v) == v > 1 /\ \A f \in 2..(v - 1) : f * f > v \/ v % f # 0
Pw2(e) == 2 ^ e
RECURSIVE PMod(_, _, _)
PMod(v, e, m) == IF e = 0 THEN 1 % m ELSE LET h == PMod(v, e \div 2, m) IN IF e % 2 = 0 THEN (h * h) % m ELSE (((h * h) % m) * v) % m
Cand(b) == {v \in Pw2(b - 1)..(Pw2(b) - 1) : v % 2 = 1 /\ PrimeN(v)}
n == p * q
phi == (p - 1) * (q - 1)
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
Init == /\ bits \in BitsSet /\ p \in Cand(bits \div 2) /\ q \in Cand(bits \div 2) /\ d = 0 /\ msg = 0 /\ c = 0 /\ m2 = 0 /\ pc = "primes"
\* the three reasons to choose other primes
Refuse == pc = "primes" /\ (p = q \/ n < Pw2(bits - 1) \/ G(E, phi) # 1) /\ pc' = "again" /\ UNCHANGED <<bits, p, q, d, msg, c, m2>>
Make == /\ pc = "primes" /\ p # q /\ n >= Pw2(bits - 1) /\ G(E, phi) = 1
        /\ d' = (CHOOSE v \in 1..(phi - 1) : (v * E) % phi = 1) /\ pc' = "key" /\ UNCHANGED <<bits, p, q, msg, c, m2>>
Encrypt == pc = "key" /\ msg' \in 0..(n - 1) /\ c' = PMod(msg', E, n) /\ m2' = PMod(msg', d, n) /\ pc' = "enc" /\ UNCHANGED <<bits, p, q, d>>
Decrypt == pc = "enc" /\ c' = PMod(c, d, n) /\ m2' = PMod(m2, E, n) /\ pc' = "dec" /\ UNCHANGED <<bits, p, q, d, msg>>
Next == Refuse \/ Make \/ Encrypt \/ Decrypt
Spec == Init /\ [][Next]_vars

Comp == <<n, E, d, p, q, d % (p - 1), d % (q - 1), CHOOSE v \in 0..(p - 1) : (v * q) % p = 1>>
Key(t) == KnownKey([i \in 1..8 |-> ISmall(t[i])])
Inverse2 == pc = "dec" => c = msg /\ m2 = msg                 \* decryption and verification undo
OneToOne == pc = "enc" /\ msg < n - 1 => c # PMod(msg + 1, E, n)
Generated == pc = "key" => /\ ValidPriv(Key(Comp))
                           /\ NBitLen(NNat(n)) = bits
                           /\ ValidKey(Key(Comp))
                           /\ RegularBits(Key(Comp))
\* no other value of any one component is a valid key, except e and d modulo the order (then exponents still match)
Changed == pc = "key" => \A i \in 1..8 : \A v \in {-1, 1, 2, -Comp[i], -2 * Comp[i]} :
              LET t == [Comp EXCEPT ![i] = @ + v] IN t[i] = Comp[i] \/ ~ValidKey(Key(t))
\* and d plus a multiple of the order stays an inverse, so it is valid only in reduced form
Reduced == pc = "key" => ~ValidKey(Key([Comp EXCEPT ![3] = @ + phi]))
====
