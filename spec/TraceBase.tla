---- MODULE TraceBase ----
(* Checks recorded executions against a specification given as a step function:
   Start(session) is the initial state, Step(st, e) describes event e in state st as a record
   [ok |-> BOOLEAN, st |-> next state, why |-> what was expected].
   Every trace is consumed to its end or rejected at the first event that the specification does not allow. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Log, Start(_), Step(_, _)
VARIABLES sid, pos, st
tvars == <<sid, pos, st>>

TraceView == <<sid, pos>>

Last(i) == IF Len(Log[i].ev) = 0 THEN PrintT("ACCEPT " \o ToString(i)) ELSE TRUE
TraceInit == /\ sid \in 1..Len(Log)
             /\ pos = 0
             /\ st = Start(Log[sid])
             /\ Last(sid)
TraceNext ==
  /\ pos < Len(Log[sid].ev)
  /\ LET e == Log[sid].ev[pos + 1]
         r == TLCEval(Step(st, e))
     IN IF r.ok
        THEN /\ st' = r.st
             /\ pos' = pos + 1
             /\ sid' = sid
             /\ (pos + 1 = Len(Log[sid].ev) => PrintT("ACCEPT " \o ToString(sid)))
        ELSE /\ PrintT("REJECT " \o ToString(sid) \o " event " \o ToString(pos + 1) \o ": expected " \o ToString(r.why) \o " but recorded " \o ToString(e))
             /\ FALSE /\ UNCHANGED tvars
====
