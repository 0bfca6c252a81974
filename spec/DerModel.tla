---- MODULE DerModel ----
(* Reading BER the way the library does, with an explicit stack of open elements, against the recursive definition in
   Der, for every octet string up to N octets over a small alphabet.  It never looks beyond the input, never opens more
   than MaxDepth elements, always ends, and agrees with the definition about acceptance, elements and nesting.
   Strict inputs written back canonically read as the same elements. *)
EXTENDS Der
CONSTANTS N, Alpha
Two == 2                                     \* MaxDepth in this model
VARIABLES in, i, end, stack, nodes, st
vars == <<in, i, end, stack, nodes, st>>
Strings == UNION {[1..n -> Alpha] : n \in 0..N}
\* a frame: the surrounding end, the position after the element (-1: indefinite length)
Frame(e, nx) == [end |-> e, next |-> nx]
Node(t, off) == [type |-> t, off |-> off, depth |-> Len(stack)]
Init == in \in Strings /\ i = 0 /\ end = Len(in) /\ stack = <<>> /\ nodes = <<>> /\ st = "read"
Stop(how) == st' = how /\ UNCHANGED <<in, i, end, stack, nodes>>
Octet(k) == in[k + 1]
\* length octets starting at k: <<ok, length (-1 indefinite), first content octet>>
Length(k) ==
  LET l == Octet(k)
  IN IF l < 128 THEN <<TRUE, l, k + 1>>
     ELSE IF l = 128 THEN <<TRUE, -1, k + 1>>
     ELSE IF l > 132 \/ k + 1 + (l - 128) > end THEN <<FALSE, 0, 0>>
     ELSE LET RECURSIVE V(_, _)
              V(j, v) == IF j = l - 128 THEN v ELSE IF v > 1000 THEN v ELSE V(j + 1, 256 * v + Octet(k + 1 + j))
          IN <<TRUE, V(0, 0), k + 1 + (l - 128)>>
Read == /\ st = "read" /\ i < end
        /\ IF i + 2 > end THEN Stop("error")
           ELSE LET t == Octet(i)
                    l == Length(i + 1)
                IN IF ~l[1] \/ (l[2] < 0 /\ ~Constructed(t)) \/ (l[2] >= 0 /\ l[3] + l[2] > end) THEN Stop("error")
                   ELSE /\ nodes' = Append(nodes, Node(t, l[3]))
                        /\ IF Constructed(t) THEN
                             IF Len(stack) >= MaxDepth THEN st' = "error" /\ UNCHANGED <<i, end, stack>>
                             ELSE /\ stack' = Append(stack, Frame(end, IF l[2] < 0 THEN -1 ELSE l[3] + l[2]))
                                  /\ end' = (IF l[2] < 0 THEN end ELSE l[3] + l[2]) /\ i' = l[3] /\ st' = "leave"
                           ELSE IF t = 0 /\ l[2] = 0 THEN        \* end of contents
                             IF stack = <<>> THEN st' = "done" /\ i' = l[3] /\ UNCHANGED <<end, stack>>
                             ELSE LET f == stack[Len(stack)]
                                  IN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ end' = f.end /\ i' = (IF f.next < 0 THEN l[3] ELSE f.next) /\ st' = "leave"
                           ELSE i' = l[3] + l[2] /\ st' = "leave" /\ UNCHANGED <<end, stack>>
                        /\ UNCHANGED in
\* leave every element that ends here
Leave == /\ st = "leave"
         /\ IF i >= end /\ stack # <<>>
            THEN LET f == stack[Len(stack)]
                 IN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ end' = f.end /\ i' = (IF f.next < 0 THEN i ELSE f.next) /\ UNCHANGED <<in, nodes, st>>
            ELSE st' = "read" /\ UNCHANGED <<in, i, end, stack, nodes>>
Finish == st = "read" /\ i >= end /\ Stop("done")
Next == Read \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Flat(_, _)
Flat(ns, d) == IF ns = <<>> THEN <<>> ELSE <<[type |-> Head(ns).type, off |-> Head(ns).off, depth |-> d]>> \o Flat(Head(ns).kids, d + 1) \o Flat(Tail(ns), d)
Inside == i <= Len(in) /\ end <= Len(in) /\ Len(stack) <= MaxDepth
Agree == st \in {"done", "error"} =>
           LET r == Elements(in, 0, Len(in), 0, "top")
           IN /\ r.ok = (st = "done")
              /\ r.ok => Flat(r.nodes, 0) = nodes
\* canonical form of what was read
Kids(n) == SelectSeq(n.kids, LAMBDA k : k.type # 0)
RECURSIVE Canon(_, _)
Canon(data, n) == Tlv(n.type, IF Constructed(n.type) THEN Cat([k \in 1..Len(Kids(n)) |-> Canon(data, Kids(n)[k])]) ELSE Content(data, n))
RECURSIVE Shape(_, _)
Shape(data, n) == <<n.type, IF Constructed(n.type) THEN [k \in 1..Len(Kids(n)) |-> Shape(data, Kids(n)[k])] ELSE Content(data, n)>>
WriteBack == st = "done" /\ in # <<>> =>
           LET p == Parse(in)
           IN p.strict /\ p.one =>
                LET c == Canon(in, p.root)
                    q == Parse(c)
                IN q.ok /\ q.one /\ q.strict /\ Shape(c, q.root) = Shape(in, p.root) /\ Len(c) <= Len(in)
Ends == <>(st \in {"done", "error"})
\* lengths: shortest form, in order, distinct
ASSUME \A n \in 0..70000 : LET b == LenBytes(n)
         IN /\ Len(b) = (IF n < 128 THEN 1 ELSE IF n < 256 THEN 2 ELSE IF n < 65536 THEN 3 ELSE 4)
            /\ (n >= 128 => b[1] = 128 + Len(b) - 1 /\ b[2] # 0)
====
