----------------------------- MODULE RunContext -----------------------------
(***************************************************************************)
(* The protocol of search.run: how the blocking call gets the search done  *)
(* in every calling context, with a helper thread if the event loop of the *)
(* calling thread is running already.                                      *)
(*                                                                         *)
(* ctx: the thread ("main", "other") and its event loop ("none": never     *)
(* had one, "unset": explicitly none, "idle", "running").  outcome: how    *)
(* the search ends ("ok", "exc": an exception, "base": KeyboardInterrupt   *)
(* or SystemExit, which leave an event loop at once and may do so from     *)
(* several evaluations).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Threads == {"main", "other"}
Loops == {"none", "unset", "idle", "running"}
Outcomes == {"ok", "exc", "base"}

\* ---- what the caller may rely on (also used to judge the code) ----
\* the search's outcome is the caller's; no tasks remain in the caller's loop, which is open
Promised(outcome) == [got |-> outcome, left |-> 0, usable |-> TRUE]
\* get_event_loop creates a loop in the main thread if there has never been one
OwnLoop(thread, loop) == loop = "unset" \/ (loop = "none" /\ thread = "other")

CONSTANT MaxTasks
VARIABLES thread, loop, outcome, pc, where, tasks, pending, helper, resq, excq, got, own
vars == <<thread, loop, outcome, pc, where, tasks, pending, helper, resq, excq, got, own>>

Init ==
    /\ thread \in Threads /\ loop \in Loops /\ outcome \in Outcomes
    /\ pc = "call" /\ where = "nowhere" /\ tasks = 0 /\ pending = {}
    /\ helper = "off" /\ resq = <<>> /\ excq = <<>> /\ got = "nothing" /\ own = "nothing"

Keep(v) == UNCHANGED v
GetLoop ==
    /\ pc = "call"
    /\ IF loop = "running"
       THEN where' = "helper" /\ helper' = "started" /\ pc' = "join" /\ own' = "nothing"
       ELSE /\ where' = "here" /\ pc' = "search" /\ helper' = helper
            /\ own' = IF OwnLoop(thread, loop) THEN "open" ELSE "nothing"
    /\ tasks' \in 1..MaxTasks
    /\ Keep(<<thread, loop, outcome, pending, resq, excq, got>>)

Searching == (where = "here" /\ pc = "search") \/ (where = "helper" /\ helper = "started")
\* the search ends.  An interrupt leaves the loop with all tasks remaining; other
\* evaluations which are ready may interrupt as well.
End ==
    /\ Searching
    /\ IF outcome = "base"
       THEN pending' \in SUBSET (1..tasks) /\ tasks' = tasks
       ELSE pending' = {} /\ tasks' = 0
    /\ IF where = "here" THEN pc' = "leave" /\ helper' = helper ELSE helper' = "leave" /\ pc' = pc
    /\ Keep(<<thread, loop, outcome, where, resq, excq, got, own>>)
Leaving == pc = "leave" \/ helper = "leave"
\* cancelling: every run of the loop ends all tasks, or is left by another interrupt
Cleanup ==
    /\ Leaving /\ tasks > 0
    /\ \/ /\ pending # {}
          /\ \E x \in pending : pending' = pending \ {x}
          /\ tasks' = IF tasks > 1 THEN tasks - 1 ELSE tasks
       \/ pending = {} /\ tasks' = 0 /\ pending' = pending
    /\ Keep(<<thread, loop, outcome, pc, where, helper, resq, excq, got, own>>)
Leave ==
    /\ Leaving /\ tasks = 0
    /\ IF where = "here"
       THEN /\ got' = outcome /\ pc' = "end"
            /\ own' = IF own = "open" THEN "closed" ELSE own
            /\ Keep(<<helper, resq, excq>>)
       ELSE /\ helper' = "done"
            /\ IF outcome = "ok" THEN resq' = <<"ok">> /\ excq' = excq ELSE excq' = <<outcome>> /\ resq' = resq
            /\ Keep(<<got, pc, own>>)
    /\ Keep(<<thread, loop, outcome, where, tasks, pending>>)
Join ==
    /\ pc = "join" /\ helper = "done"
    /\ got' = IF excq # <<>> THEN Head(excq) ELSE Head(resq)
    /\ pc' = "end"
    /\ Keep(<<thread, loop, outcome, where, tasks, pending, helper, resq, excq, own>>)
Next == GetLoop \/ End \/ Cleanup \/ Leave \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OutcomeIsSearchs == pc = "end" => got = outcome
NothingLeft == pc = "end" => tasks = 0 /\ own # "open"
KeepsPromise == pc = "end" => [got |-> got, left |-> tasks, usable |-> TRUE] = Promised(outcome)
OneQueue == Len(resq) + Len(excq) <= 1
NeverTakesFromEmpty == (pc = "join" /\ helper = "done") => Len(resq) + Len(excq) = 1
Returns == <>(pc = "end")
=============================================================================
