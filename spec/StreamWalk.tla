---- MODULE StreamWalk ----
(* The control states of a block-cipher context, for test generation: how many bytes are buffered, which
   direction is in progress, and whether blocks were processed since the IV was set.  TLC enumerates every
   transition; the checks replay walks that cover them all on the code. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS BS,       \* block length
          MaxLen    \* longest piece
VARIABLES fill, dir, ran
vars == <<fill, dir, ran>>
Pads == {"none", "zero", "pkcs7"}

\* transitions as <<command, argument>>
After(d, n) == [fill |-> (fill + n) % BS, dir |-> IF (fill + n) % BS = 0 THEN "any" ELSE d, ran |-> ran \/ fill + n >= BS]
State(f, d, r) == [fill |-> f, dir |-> d, ran |-> r]
Here == State(fill, dir, ran)
Emit(op, arg, to) == PrintT("EDGE " \o ToString(fill) \o " " \o dir \o " " \o ToString(ran) \o " " \o op \o " " \o arg \o " "
                            \o ToString(to.fill) \o " " \o to.dir \o " " \o ToString(to.ran))
Go(op, arg, to) == /\ fill' = to.fill /\ dir' = to.dir /\ ran' = to.ran
                   /\ Emit(op, arg, to)

Feed  == \E d \in {"e", "d"}, n \in 0..MaxLen : dir \in {"any", d} /\ Go("c" \o d, ToString(n), After(d, n))
Close == \E d \in {"e", "d"}, n \in 0..MaxLen, p \in Pads :
           /\ dir \in {"any", d}
           /\ Go("c" \o d \o "f", ToString(n) \o ":" \o p, State(0, "any", ran \/ fill + n >= BS \/ (d = "e" /\ (p = "pkcs7" \/ (p = "zero" /\ fill + n > 0)))))
SetIV == \E how \in {"new", "current", "zero"} : Go("cs", how, State(0, "any", FALSE))
GetIV == Go("cg", "-", Here)
ReInit == \E how \in {"new", "samekey"} : Go("ci", how, State(0, "any", FALSE))
Init == fill = 0 /\ dir = "any" /\ ran = FALSE
Next == Feed \/ Close \/ SetIV \/ GetIV \/ ReInit
TypeOK == fill \in 0..(BS - 1) /\ dir \in {"any", "e", "d"} /\ (dir = "any" <=> fill = 0)
====
