------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What is kept of an object when it is saved and loaded again.            *)
(* A queue has waiting objects in order, running ones (simplices only),    *)
(* and the set of all it has seen: those are not queued again.  Running    *)
(* objects have not been dealt with, hence are waiting (first) again in    *)
(* the loaded queue.  A container has nodes, rejected results and refined  *)
(* positions.  Objects are just named by numbers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Rng(s) == {s[i] : i \in DOMAIN s}
EmptyQueue == [waiting |-> <<>>, running |-> {}, seen |-> {}]

\* the new ones among objs, each once, in order
RECURSIVE Fresh(_, _)
Fresh(seen, objs) ==
    IF objs = <<>> THEN <<>>
    ELSE IF Head(objs) \in seen THEN Fresh(seen, Tail(objs))
    ELSE <<Head(objs)>> \o Fresh(seen \cup {Head(objs)}, Tail(objs))

QAdd(q, objs) ==
    [q EXCEPT !.waiting = @ \o Fresh(q.seen, objs), !.seen = @ \cup Rng(objs)]
QPop(q, runs) ==
    [q EXCEPT !.waiting = Tail(@), !.running = IF runs THEN @ \cup {Head(q.waiting)} ELSE @]
QFinish(q, o) == [q EXCEPT !.running = @ \ {o}]
\* order: the objects in the file
QCanLoad(q, order) ==
    LET n == Cardinality(q.running)
    IN /\ Len(order) = n + Len(q.waiting)
       /\ {order[i] : i \in 1..n} = q.running
       /\ SubSeq(order, n + 1, Len(order)) = q.waiting
QLoad(order) == [waiting |-> order, running |-> {}, seen |-> Rng(order)]
Pending(q) == Rng(q.waiting) \cup q.running

EmptyBox == [nodes |-> <<>>, rejected |-> <<>>, refined |-> <<>>]
CAdd(c, o, node) == IF node THEN [c EXCEPT !.nodes = Append(@, o)] ELSE [c EXCEPT !.rejected = Append(@, o)]
CRefine(c, o) == [c EXCEPT !.refined = Append(@, o)]
=============================================================================
