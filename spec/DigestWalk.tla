---- MODULE DigestWalk ----
(* The control states of a digest context, for test generation: how many bytes of the current block are
   buffered and whether a block was processed.  Pieces are those that end around block boundaries. *)
EXTENDS Integers, Sequences, TLC
CONSTANT BL          \* block length
VARIABLES fill, ran, done
vars == <<fill, ran, done>>
Lens(f) == IF f = 0 THEN 0..(2*BL + 1) ELSE {n \in {0, 1, 2, BL - f - 9, BL - f - 8, BL - f - 1, BL - f, BL - f + 1, BL, 2*BL - f - 1, 2*BL - f, 2*BL - f + 1, 3*BL - f} : n >= 0}
Go(op, arg, f, r, d) == /\ fill' = f /\ ran' = r /\ done' = d
                        /\ PrintT("EDGE " \o ToString(fill) \o " " \o ToString(ran) \o " " \o ToString(done) \o " " \o op \o " " \o ToString(arg) \o " "
                                  \o ToString(f) \o " " \o ToString(r) \o " " \o ToString(d))
Feed == ~done /\ \E n \in Lens(fill) : Go("du", n, (fill + n) % BL, ran \/ fill + n >= BL, FALSE)
Finish == ~done /\ Go("df", 0, 0, FALSE, TRUE)
ReInit == Go("di", 0, 0, FALSE, FALSE)
Init == fill = 0 /\ ran = FALSE /\ done = FALSE
Next == Feed \/ Finish \/ ReInit
TypeOK == fill \in 0..(BL - 1) /\ (done => fill = 0)
====
