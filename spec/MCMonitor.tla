------------------------------ MODULE MCMonitor ------------------------------
(***************************************************************************)
(* The monitor of recorded searches (SearchTrace), run on the behaviours   *)
(* of the specified search (NodeSearch).  It has to accept all of them     *)
(* (no false alarm by construction), for any set of minimizations which    *)
(* finish at the same time, any point of a failure or a crash, and after   *)
(* resuming.  With IOEnv.NS_BUG set, the search does something it must     *)
(* not; a behaviour which is rejected has to exist.                        *)
(***************************************************************************)
EXTENDS MCNodeSearch, SequencesExt

M == INSTANCE SearchTrace WITH tr <- 0, l <- 0, st <- 0

VARIABLE mon    \* s0: state of the monitor, rel, started: since then; todo: to be finished; quiet; bad: verdict
mvars == <<vars, mon>>

Bug == IOEnv.NS_BUG
CC == [C EXCEPT !.par = C.par] @@ [thr |-> 0]
AllPoints == UNION {Values(s) : s \in known} \cup {<<x>> : x \in -30..40}
Value(p) == IF Normalize(C.box, p) \in world THEN 0 ELSE 5
Gap == {<<p, Value(p)>> : p \in AllPoints}

\* as recorded
EndOf(r) == r.s[LET h == Hits(r.s) IN IF h = {} THEN 1 ELSE CHOOSE x \in h : \A y \in h : x <= y]
ProjRes(r) == [s |-> r.s, end |-> EndOf(r), pos |-> r.pos, val |-> Value(EndOf(r)), ok |-> TRUE, node |-> r.node]
Snap(d) == [none |-> FALSE, pend |-> SetToSeq(d.pend), posq |-> SetToSeq(d.posq), refd |-> SetToSeq(d.refd),
            res |-> SetToSeq({ProjRes(r) : r \in d.res})]
StartMon(kind) ==
    [s0 |-> M!StartState(CC, [kind |-> kind, force |-> FALSE, tags |-> "", loaded |-> IF kind = "load" THEN Snap(disk) ELSE <<>>]),
     rel |-> {}, started |-> <<>>, todo |-> {}, quiet |-> FALSE, bad |-> {}]

MInit == Init /\ mon = StartMon("fresh")

Started == LET new == run' \ run IN IF new = {} THEN mon.started ELSE Append(mon.started, CHOOSE s \in new : TRUE)
MLoop == ~mon.quiet /\ Loop /\ mon' = [mon EXCEPT !.started = Started]
MComplete == \E s \in mon.todo : Complete(s) /\ mon' = [mon EXCEPT !.todo = @ \ {s}]
Settled == status = "running" /\ ~mon.quiet /\ mon.todo = {} /\ ~ENABLED Loop
Observe ==
    /\ Settled
    /\ LET snap == Snap(Snapshot)
           verdict == M!StepVerdict(CC, Gap, mon.s0, mon.rel, mon.started, snap, "")
           last == IF Finished
                   THEN M!Clause((mon.s0.run \cup Values(mon.started)) \subseteq mon.rel, "C01", "returned_while_running", 0)
                        \cup M!Clause(snap.pend = <<>>, "C01", "returned_with_pending", 0)
                        \cup M!Clause(snap.posq = <<>> \/ ~C.hasStencil, "C04", "returned_with_positions", 0)
                   ELSE {}
       IN mon' = [mon EXCEPT !.s0 = M!After(CC, mon.s0, mon.rel, mon.started, snap), !.rel = {}, !.started = <<>>,
                             !.quiet = TRUE, !.bad = verdict \cup last]
    /\ UNCHANGED vars
Release ==
    /\ mon.quiet /\ status = "running"
    /\ \E rel \in (SUBSET run) \ {{}} : mon' = [mon EXCEPT !.rel = rel, !.todo = rel, !.quiet = FALSE]
    /\ UNCHANGED vars
MSave == ~mon.quiet /\ crashes < CrashBudget /\ Save /\ UNCHANGED mon
MReturn == mon.quiet /\ Return /\ UNCHANGED mon
MFail == \E s \in run : Fail(s) /\ UNCHANGED mon
MRestart == Restart /\ mon' = IF disk.none THEN [StartMon("fresh") EXCEPT !.s0.tags = "C07"] ELSE StartMon("load")

(* ------------------------ searches which go wrong ---------------------- *)
Untouched == UNCHANGED <<world, disk, crashes, fails, starts, skipped, base, status, known, posall>>
Wrong ==
    /\ status = "running" /\ ~mon.quiet
    /\ \/ /\ Bug = "lose_simplex" /\ \E s \in pend : ~MaySkip(C, Nodes(res), s) /\ pend' = pend \ {s}
          /\ UNCHANGED <<run, posq, refd, res, mon>> /\ Untouched
       \/ /\ Bug = "lose_result" /\ \E r \in res : res' = res \ {r}
          /\ UNCHANGED <<run, pend, posq, refd, mon>> /\ Untouched
       \/ /\ Bug = "lose_position" /\ \E q \in posq : MayRefine(C, refd, q) /\ posq' = posq \ {q}
          /\ UNCHANGED <<run, pend, res, refd, mon>> /\ Untouched
       \/ /\ Bug = "lose_refined" /\ \E q \in refd : refd' = refd \ {q}
          /\ UNCHANGED <<run, pend, res, posq, mon>> /\ Untouched
       \/ /\ Bug = "refine_twice" /\ \E q \in Nodes(res) : ~MayRefine(C, refd, q) /\ refd' = refd \cup {q}
          /\ UNCHANGED <<run, pend, res, posq, mon>> /\ Untouched
       \/ /\ Bug = "start_covered" /\ \E s \in pend : /\ MustSkip(C, Nodes(res), s) /\ Cardinality(run) < C.par
                                                      /\ pend' = pend \ {s} /\ run' = run \cup {s}
                                                      /\ mon' = [mon EXCEPT !.started = Append(@, s)]
          /\ UNCHANGED <<res, posq, refd>> /\ Untouched
       \/ /\ Bug = "start_again" /\ \E r \in res : /\ r.s \notin run /\ Cardinality(run) < C.par
                                                   /\ run' = run \cup {r.s}
                                                   /\ mon' = [mon EXCEPT !.started = Append(@, r.s)]
          /\ UNCHANGED <<pend, res, posq, refd>> /\ Untouched
       \/ /\ Bug = "one_more" /\ \E s \in pend : /\ Cardinality(run) = C.par
                                                 /\ pend' = pend \ {s} /\ run' = run \cup {s}
                                                 /\ mon' = [mon EXCEPT !.started = Append(@, s)]
          /\ UNCHANGED <<res, posq, refd>> /\ Untouched
       \/ /\ Bug = "forget_run" /\ \E s \in run \ mon.todo : run' = run \ {s}
          /\ UNCHANGED <<pend, res, posq, refd, mon>> /\ Untouched
       \/ /\ Bug = "classify" /\ \E r \in res : res' = (res \ {r}) \cup {[r EXCEPT !.node = ~@]}
          /\ UNCHANGED <<pend, run, posq, refd, mon>> /\ Untouched
       \/ /\ Bug = "launch_less" /\ \E q \in posq : /\ MayRefine(C, refd, q) /\ pend = {} /\ Cardinality(run) < C.par
                                                    /\ posq' = posq \ {q} /\ refd' = refd \cup {q}
          /\ UNCHANGED <<pend, run, res, mon>> /\ Untouched
       \/ /\ Bug = "foreign" /\ pend' = pend \cup {<< <<1>>, <<29>> >>}
          /\ UNCHANGED <<run, res, posq, refd, mon>> /\ Untouched
       \/ /\ Bug = "idle" /\ pend # {} /\ Cardinality(run) < C.par /\ mon.todo = {}
          /\ LET snap == Snap(Snapshot)
             IN mon' = [mon EXCEPT !.quiet = TRUE, !.bad = M!StepVerdict(CC, Gap, mon.s0, mon.rel, mon.started, snap, "")]
          /\ UNCHANGED vars

MNext == MLoop \/ MComplete \/ Observe \/ Release \/ MSave \/ MReturn \/ MFail \/ MRestart \/ Wrong
MSpec == MInit /\ [][MNext]_mvars

Accepted == mon.bad = {}
\* whatever may be saved at any time is accepted after a crash, or a failure
AcceptedBetween ==
    (status \in {"running", "failed"} /\ ~mon.quiet) =>
        M!BetweenVerdict(CC, Gap, mon.s0, mon.rel, mon.started, Snap(Snapshot), "x") = {}
=============================================================================
