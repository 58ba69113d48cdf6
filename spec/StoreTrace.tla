----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of queues and containers which are saved and  *)
(* loaded between operations (the observations must be those of Store),    *)
(* and attribute maps of objects before and after saving.                  *)
(***************************************************************************)
EXTENDS Store, Vectors

Runs(r) == r.type = "simplex"
Bag(s) == [v \in Range(s) |-> Cnt(s, v)]

\* objects: those a queue gives as still pending, running ones first
QueueObs(r, q, e, num) ==
    Clause(e.has = (q.waiting # <<>>), "C20", "has_queued", <<num, e.op, e.has>>)
    \cup (IF Runs(r)
          THEN Clause(e.running = Cardinality(q.running), "C20", "num_running", <<num, e.op, e.running>>)
               \cup Clause(e.finished = (Pending(q) = {}), "C20", "finished", <<num, e.op, e.finished>>)
          ELSE {})
RECURSIVE QueueFrom(_, _, _)
QueueFrom(r, q, i) ==
    IF i > Len(r.ops) THEN {}
    ELSE LET e == r.ops[i]
             p == CASE e.op = "add" -> QAdd(q, e.objs)
                    [] e.op = "pop" -> QPop(q, Runs(r))
                    [] e.op = "finish" -> QFinish(q, e.objs[1])
                    [] e.op = "reload" -> QLoad(e.objects)
             \* a loaded queue has all that was pending
             seen == IF e.op = "reload" THEN q ELSE p
             bad == Clause(QCanLoad(seen, e.objects), "C20", "queue_objects", <<i, e.op, e.objects, seen>>) \cup QueueObs(r, p, e, i) \cup
                    (IF e.op = "pop" THEN Clause(e.popped = Head(q.waiting), "C20", "popped", <<i, e.popped, q>>) ELSE {})
         IN IF bad # {} THEN bad ELSE QueueFrom(r, p, i + 1)

ContObs(c, e, num) ==
    Clause(SameBag(e.nodes, c.nodes), "C20", "nodes", <<num, e.op, e.nodes, c.nodes>>)
    \cup Clause(SameBag(e.rejected, c.rejected), "C20", "rejected_results", <<num, e.op, e.rejected, c.rejected>>)
    \cup Clause(SameBag(e.refined, c.refined), "C20", "refined_results", <<num, e.op, e.refined, c.refined>>)
    \cup Clause(SameBag(e.all, c.nodes \o c.rejected), "C20", "minimization_results", <<num, e.op, e.all>>)
RECURSIVE ContFrom(_, _, _)
ContFrom(r, c, i) ==
    IF i > Len(r.ops) THEN {}
    ELSE LET e == r.ops[i]
             d == CASE e.op = "result" -> CAdd(c, e.obj, e.ok /\ e.val <= r.thr)
                    [] e.op = "refine" -> CRefine(c, e.obj)
                    [] e.op = "reload" -> c
             bad == ContObs(d, e, i)
         IN IF bad # {} THEN bad ELSE ContFrom(r, d, i + 1)

\* attribute maps: sequences of <<path, value>>
AttrVerdict(r) ==
    LET before == Range(r.before)
        after == Range(r.after)
    IN Clause(r.ok, "C20", "raised", <<r.obj, r.exc>>)
       \cup (IF ~r.ok THEN {}
             ELSE Clause(after \subseteq before, "C20", "attribute_changed", <<r.obj, after \ before>>)
                  \cup Clause(before \subseteq after, "C20", "attribute_lost", <<r.obj, before \ after>>)
                  \cup Clause(Range(r.usebefore) = Range(r.useafter), "C20", "used_differently",
                              <<r.obj, Range(r.usebefore) \ Range(r.useafter), Range(r.useafter) \ Range(r.usebefore)>>))

Verdict(r) ==
    CASE r.kind = "queue" -> IF r.ok THEN QueueFrom(r, EmptyQueue, 1) ELSE Clause(FALSE, "C20", "raised", r.exc)
      [] r.kind = "container" -> IF r.ok THEN ContFrom(r, EmptyBox, 1) ELSE Clause(FALSE, "C20", "raised", r.exc)
      [] r.kind = "attrs" -> AttrVerdict(r)
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
