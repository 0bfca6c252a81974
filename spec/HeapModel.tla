---- MODULE HeapModel ----
(* The heap discipline (Heap) against an abstract library: objects are created with several allocations, any of which may
   fail, used with temporary allocations, any of which may fail, and destroyed.  A library that releases everything is
   never accused, whatever fails; a library with a defect (see Faults) is accused at the call where it shows. *)
EXTENDS Heap
CONSTANTS Objects, MaxAlloc, MaxEvents, Faults
VARIABLES owned, lost, h, verdict, fault, wrong, count
vars == <<owned, lost, h, verdict, fault, wrong, count>>
AllFaults == {"none", "leak", "leakOnError", "doubleFree", "keepsOne", "notErased", "ignoresFailure"}
Init == owned = [o \in Objects |-> 0] /\ lost = 0 /\ h = Heap0 /\ verdict = TRUE /\ fault \in Faults /\ wrong = FALSE /\ count = 0
Sum(f) == LET RECURSIVE T(_)  T(s) == IF s = {} THEN 0 ELSE LET o == CHOOSE v \in s : TRUE IN f[o] + T(s \ {o}) IN T(DOMAIN f)
Event(op, o, rc, live, bad, kept) == [op |-> op, h |-> o, rc |-> rc, live |-> live, badfree |-> bad, kept |-> kept]
Judge(e, isWrong) == LET r == StepHeap(h, e) IN h' = r.st /\ verdict' = (verdict /\ r.ok) /\ wrong' = (wrong \/ isWrong) /\ count' = count + 1
Go == count < MaxEvents /\ verdict
\* creation with k allocations; the j-th fails (j = 0: none)
Create(o) == /\ Go /\ owned[o] = 0
             /\ \E k \in 1..MaxAlloc : \E j \in 0..k :
                  LET left == IF j > 0 /\ fault = "leakOnError" THEN j - 1 ELSE 0
                      ign == j > 0 /\ fault = "ignoresFailure"
                      own == IF j = 0 THEN k ELSE IF ign THEN k - 1 ELSE 0
                  IN /\ owned' = [owned EXCEPT ![o] = own] /\ lost' = lost + left
                     /\ Judge(Event("cc", o, IF j = 0 \/ ign THEN 0 ELSE OUT_OF_MEMORY, Sum(owned') + lost', 0, 0), left > 0 \/ (ign /\ k = 1))
                     /\ UNCHANGED fault
\* use with temporary allocations
Use(o) == /\ Go /\ owned[o] > 0
          /\ \E leak \in (IF fault = "leak" THEN 0..1 ELSE {0}) :
               /\ lost' = lost + leak
               /\ Judge(Event("ce", o, 0, Sum(owned) + lost', 0, 0), leak > 0)
          /\ UNCHANGED <<owned, fault>>
Destroy(o) == /\ Go /\ owned[o] > 0
              /\ LET keep == IF fault = "keepsOne" /\ owned[o] > 1 THEN 1 ELSE 0
                 IN /\ owned' = [owned EXCEPT ![o] = 0] /\ lost' = lost + keep
                    /\ Judge(Event("cx", o, 0, Sum(owned') + lost', IF fault = "doubleFree" THEN 1 ELSE 0, IF fault = "notErased" THEN 1 ELSE 0),
                             keep > 0 \/ fault \in {"doubleFree", "notErased"})
              /\ UNCHANGED fault
Next == \E o \in Objects : Create(o) \/ Use(o) \/ Destroy(o)
Spec == Init /\ [][Next]_vars
Sound == ~wrong => verdict                          \* nothing correct is refused
Complete == wrong => ~verdict                       \* nothing wrong is missed
Accounts == verdict => h.live = Sum(owned) /\ lost = 0
Nothing == verdict /\ (\A o \in Objects : owned[o] = 0) => h.live = 0
====
