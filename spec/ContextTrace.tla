---------------------------- MODULE ContextTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls of search.run: expected is how run_async ended on *)
(* the same problem ("ok" or the exception), got the outcome of run.       *)
(***************************************************************************)
EXTENDS Vectors
R == INSTANCE RunContext WITH MaxTasks <- 1, thread <- 0, loop <- 0, outcome <- 0, pc <- 0, where <- 0, tasks <- 0,
     pending <- 0, helper <- 0, resq <- 0, excq <- 0, got <- 0, own <- 0

CallVerdict(r) ==
    LET p == R!Promised(r.expected)
    IN Clause(r.got = p.got, "C18", "outcome", <<r.ctx, r.expected, r.got>>)
       \cup (IF r.got # "ok" THEN {} ELSE Clause(r.same, "C18", "result", <<r.ctx>>))
       \cup Clause(r.usable = p.usable, "C18", "loop_unusable", <<r.ctx, r.expected, r.why>>)
       \cup Clause(r.left = p.left, "C18", "tasks_left", <<r.ctx, r.expected, r.left>>)
       \cup Clause(r.kept, "C18", "loop_replaced", <<r.ctx, r.expected>>)
\* one minimization after the other, r.per evaluations each, the (r.when + 1)-th of which raises
SavedVerdict(r) ==
    LET done == r.when \div r.per
    IN Clause(r.got = r.error, "C09", "outcome", <<r.ctx, r.error, r.got>>)
       \cup Clause(r.results = done, "C09,C08", "saved_results", <<r.ctx, r.error, r.results, done>>)
       \cup Clause(r.pending = r.total - done, "C09,C08", "saved_pending", <<r.ctx, r.error, r.pending, r.total - done>>)
Verdict(r) == IF r.kind = "call" THEN CallVerdict(r) ELSE SavedVerdict(r)
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
