---- MODULE TraceRaCrypt ----
(* Recorded sessions of the library against RaCrypt. *)
EXTENDS RaCrypt, TraceLog
VARIABLES sid, pos, st
StartOf(s) == [wb |-> s.wb, lib |-> Start0]
StepOf(s, e) == LET r == LibStep(s.wb, s.lib, e) IN [ok |-> r.ok, st |-> [wb |-> s.wb, lib |-> r.st], why |-> r.why]
T == INSTANCE TraceBase WITH Log <- Log, Start <- StartOf, Step <- StepOf
Init == T!TraceInit
Next == T!TraceNext
View == T!TraceView
====
