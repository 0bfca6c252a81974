---- MODULE Outcome ----
(* What a specification step says about an event: whether it is allowed, the next state, what was expected. *)
EXTENDS Integers, Sequences, TLC
Ok(s) == [ok |-> TRUE, st |-> s, why |-> ""]
Bad(s, w) == [ok |-> FALSE, st |-> s, why |-> w]
If(c, s, w) == IF c THEN Ok(s) ELSE Bad(s, w)

\* error codes of the library
DIV_BY_ZERO == -1
OUT_OF_MEMORY == -2
OUT_OF_BUFFER == -3
NUMBER_SIZE == -4
INVALID_PARAM == -5
INVALID_DATA == -6

Failed(e) == "failed" \in DOMAIN e /\ e.failed > 0    \* an allocation was made to fail in this call
====
