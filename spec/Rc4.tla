---- MODULE Rc4 ----
(* RC4: the state is a permutation of bytes and two indices. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
LOCAL R256 == [i \in 1..256 |-> i - 1]
LOCAL Swap(p, i, j) == [p EXCEPT ![i + 1] = p[j + 1], ![j + 1] = p[i + 1]]
Rc4Key(key) ==
  LET r == FoldLeft(LAMBDA a, i : LET j == (a.j + a.p[i + 1] + key[(i % Len(key)) + 1]) % 256
                                  IN [p |-> Swap(a.p, i, j), j |-> j],
                    [p |-> R256, j |-> 0], R256)
  IN [p |-> r.p, i |-> 0, j |-> 0]
Rc4Next(x, b) ==   \* next state and the byte b xored with the keystream byte
  LET i == (x.i + 1) % 256
      j == (x.j + x.p[i + 1]) % 256
      p == Swap(x.p, i, j)
  IN [x |-> [p |-> p, i |-> i, j |-> j], out |-> b ^^ p[((p[i + 1] + p[j + 1]) % 256) + 1]]
Rc4Crypt(x, in) ==
  FoldLeft(LAMBDA a, b : LET r == Rc4Next(a.x, b) IN [x |-> r.x, out |-> Append(a.out, r.out)], [x |-> x, out |-> <<>>], in)
====
