---- MODULE StreamModel ----
(* The streaming layer (BlockMode) over a small block permutation, exhaustively: every message up to MaxLen over three
   symbols, in every division into pieces, in every mode and direction.  It checks the specification that the recorded
   executions of the library are compared with:
     - what a context has written and its chaining value depend on the data only, not on how it was divided;
     - decryption gives back what was encrypted, also through the paddings;
     - two contexts that are used alternately do not affect each other;
     - setting the IV forgets everything that was processed. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxLen
Sym == 0..2
BSz == 2
\* a permutation of pairs of symbols that depends on the key
TE(c, k, b) == <<(b[2] + k) % 3, (b[1] + 2 * b[2] + 1) % 3>>
TD(c, k, b) == LET y == (b[1] - k + 3) % 3 IN <<(b[2] - 2 * y - 1 + 6) % 3, y>>
TX(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 3]
TI(a, b) == [i \in 1..Len(a) |-> (a[i] - b[i] + 3) % 3]      \* the inverse of TX
TBL(c) == BSz
BM == INSTANCE BlockMode WITH E <- TE, D <- TD, BL <- TBL, X <- TX
BI == INSTANCE BlockMode WITH E <- TE, D <- TD, BL <- TBL, X <- TI
\* X is its own inverse in the library (exclusive or); with three symbols decryption uses the inverse
U(x, enc, in) == IF enc THEN BM!Update(x, enc, in) ELSE BI!Update(x, enc, in)

VARIABLES mode, enc, x, msg, out,     \* the context under test, all it was given, all it wrote
          y, ymsg, yout               \* a second context with another key
vars == <<mode, enc, x, msg, out, y, ymsg, yout>>
Modes == {"ecb", "cbc", "cfb", "ofb"}
X0(k) == BM!SetIV(BM!NewCtx("toy", k, mode), <<1, 2>>)
Init == /\ mode \in Modes /\ enc \in BOOLEAN
        /\ x = X0(1) /\ msg = <<>> /\ out = <<>>
        /\ y = X0(2) /\ ymsg = <<>> /\ yout = <<>>
Pieces(room) == UNION {[1..n -> Sym] : n \in 0..room}
Feed == \E p \in Pieces(MaxLen - Len(msg)) :
          LET r == U(x, enc, p) IN x' = r.x /\ out' = out \o r.out /\ msg' = msg \o p /\ UNCHANGED <<mode, enc, y, ymsg, yout>>
Other == \E s \in Sym : Len(ymsg) < 3 /\
          LET r == U(y, enc, <<s>>) IN y' = r.x /\ yout' = yout \o r.out /\ ymsg' = Append(ymsg, s) /\ UNCHANGED <<mode, enc, x, msg, out>>
Restart == x' = BM!SetIV(x, <<1, 2>>) /\ msg' = <<>> /\ out' = <<>> /\ UNCHANGED <<mode, enc, y, ymsg, yout>>
Next == Feed \/ Other \/ Restart
Spec == Init /\ [][Next]_vars

Whole == U(X0(1), enc, msg)
DivisionIndependent == x = Whole.x /\ out = Whole.out
OtherIndependent == LET w == U(X0(2), enc, ymsg) IN y = w.x /\ yout = w.out
Buffered == Len(x.buf) = (Len(msg) % BSz) /\ Len(out) = Len(msg) - (Len(msg) % BSz)
RoundTrip == LET back == U(X0(1), ~enc, out).out IN back = SubSeq(msg, 1, Len(out))
\* the padding: only what was added is removed
PadOk == enc => \A p \in {"pkcs7", "zero", "none"} :
           LET f == BM!Final(X0(1), TRUE, msg, p)
           IN /\ p = "pkcs7" => Len(f.out) = Len(msg) - (Len(msg) % BSz) + BSz
              /\ p = "zero" => Len(f.out) = IF (Len(msg) % BSz) = 0 THEN Len(msg) ELSE Len(msg) - (Len(msg) % BSz) + BSz
              /\ p = "none" => f.out = out
              /\ p = "pkcs7" => BI!Final(X0(1), FALSE, f.out, "pkcs7").out = msg
====
