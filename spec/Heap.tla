---- MODULE Heap ----
(* Heap discipline of the library: which objects own how many blocks, and that nothing else stays allocated.
   State: [own |-> object name -> number of blocks, live |-> blocks outstanding, on |-> recorded at all]. *)
EXTENDS Outcome, FiniteSets
Heap0 == [own |-> <<>>, live |-> 0]       \* own: function with string domain

Obj(e) ==   \* the object an event creates or destroys
  CASE e.op \in {"cc", "cx"} -> "c" \o ToString(e.h)
    [] e.op \in {"dc", "dx"} -> "d" \o ToString(e.h)
    [] e.op \in {"4c", "4x"} -> "r" \o ToString(e.h)
    [] e.op \in {"gc", "gx"} -> "g" \o ToString(e.h)
    [] e.op \in {"mc", "mx"} -> "m" \o ToString(e.h)
    [] e.op \in {"kc", "ki", "kx"} -> "k" \o ToString(e.h)
    [] OTHER -> "b" \o ToString(e.r)
Creates(e) == e.op \in {"cc", "dc", "4c", "gc", "mc", "kc", "ki", "bn", "bw", "bclone"} /\ e.rc = 0
Destroys(e) == e.op \in {"cx", "dx", "4x", "gx", "mx", "kx", "bfree", "bcfree"}
Wipes(e) == Destroys(e) /\ e.op # "bfree"

StepHeap(h, e) ==
  IF "live" \notin DOMAIN e THEN Ok(h)
  ELSE IF e.badfree # 0 THEN Bad(h, "only live blocks are released")
  ELSE IF Creates(e) THEN
         IF e.live > h.live THEN Ok([own |-> TLCEval((Obj(e) :> (e.live - h.live)) @@ h.own), live |-> e.live])
         ELSE Bad(h, "the new object owns at least one block")
  ELSE IF Destroys(e) THEN
         LET n == IF Obj(e) \in DOMAIN h.own THEN h.own[Obj(e)] ELSE 0
         IN IF e.live # h.live - n THEN Bad(h, [released |-> n, live |-> h.live - n])
            ELSE IF Wipes(e) /\ e.kept # 0 THEN Bad(h, "released memory was erased")
            ELSE Ok([own |-> TLCEval([o \in DOMAIN h.own \ {Obj(e)} |-> h.own[o]]), live |-> e.live])
  ELSE IF e.live = h.live THEN Ok(h) ELSE Bad(h, [live |-> h.live])
====
