----------------------------- MODULE NodeSearch -----------------------------
(***************************************************************************)
(* The search: starting simplices are minimized by at most par concurrent  *)
(* tasks, nodes found queue their position for refinement, refinements     *)
(* launch further simplices.  The state is saved to disk from time to      *)
(* time; the process may crash (and is restarted from disk), and           *)
(* evaluations of the gap function may fail (which ends the search).       *)
(*                                                                         *)
(* One action per critical section of the code: between two "await"s       *)
(* nothing else happens.  The order in which queued work is taken is left  *)
(* open.                                                                   *)
(***************************************************************************)
EXTENDS SearchCore

CONSTANTS
    C,              \* configuration, see SearchCore
    Worlds,         \* possible gap functions: sets of positions with a gap below threshold
    CrashBudget, FailBudget

VARIABLES
    world,          \* zeros of the gap function
    pend, run,      \* starting simplices: queued, in progress
    posq,           \* positions queued for refinement
    refd,           \* refined positions
    res,            \* results: [s, pos, node]
    known, posall,  \* everything queued so far, in this process
    status,         \* running, done, failed
    disk,           \* last saved state (a record), or NoDisk
    crashes, fails,
    starts,         \* history: number of times each simplex was started in this process
    skipped,        \* history: simplices left out, with the nodes known at that time
    base            \* history: results at the start of this process

mem == <<pend, run, posq, refd, res, known, posall, status, starts, skipped>>
vars == <<world, pend, run, posq, refd, res, known, posall, status, disk, crashes, fails, starts, skipped, base>>

NoDisk == [none |-> TRUE]
Snapshot == [none |-> FALSE, pend |-> pend \cup run, posq |-> posq, refd |-> refd, res |-> res]
Nodes(rs) == {r.pos : r \in {x \in rs : x.node}}

\* The result of minimizing s: its first vertex with a vanishing gap, if any.
Hits(s) == {j \in DOMAIN s : Normalize(C.box, s[j]) \in world}
ResultOf(s) ==
    LET h == Hits(s)
        j == IF h = {} THEN 1 ELSE CHOOSE x \in h : \A y \in h : x <= y
    IN [s |-> s, pos |-> Normalize(C.box, s[j]), node |-> h # {}]

Init ==
    /\ world \in Worlds
    /\ pend = Mesh(C) /\ run = {}
    /\ posq = {} /\ refd = {} /\ res = {}
    /\ known = Mesh(C) /\ posall = {}
    /\ status = "running"
    /\ disk = NoDisk
    /\ crashes = 0 /\ fails = 0
    /\ starts = [s \in Mesh(C) |-> 0] /\ skipped = {} /\ base = {}

FreeSlot == status = "running" /\ Cardinality(run) < C.par

\* ---- the scheduling loop ----
Start(s) ==
    /\ FreeSlot /\ s \in pend /\ ~Skips(C, Nodes(res), s)
    /\ pend' = pend \ {s} /\ run' = run \cup {s}
    /\ starts' = [starts EXCEPT ![s] = @ + 1]
    /\ UNCHANGED <<world, posq, refd, res, known, posall, status, disk, crashes, fails, skipped, base>>

Skip(s) ==
    /\ FreeSlot /\ s \in pend /\ Skips(C, Nodes(res), s)
    /\ pend' = pend \ {s}
    /\ skipped' = skipped \cup {[s |-> s, nodes |-> Nodes(res)]}
    /\ UNCHANGED <<world, run, posq, refd, res, known, posall, status, disk, crashes, fails, starts, base>>

Refine(q) ==
    /\ FreeSlot /\ C.hasStencil /\ pend = {} /\ q \in posq
    /\ MayRefine(C, refd, q)
    /\ posq' = posq \ {q}
    /\ LET new == Launch(C, q) \ known
       IN /\ pend' = pend \cup new
          /\ known' = known \cup new
          /\ starts' = starts @@ [s \in new |-> 0]
    /\ refd' = refd \cup {q}
    /\ UNCHANGED <<world, run, res, posall, status, disk, crashes, fails, skipped, base>>

Discard(q) ==
    /\ FreeSlot /\ C.hasStencil /\ pend = {} /\ q \in posq
    /\ ~MayRefine(C, refd, q)
    /\ posq' = posq \ {q}
    /\ UNCHANGED <<world, pend, run, refd, res, known, posall, status, disk, crashes, fails, starts, skipped, base>>

\* ---- a minimization finishes ----
Complete(s) ==
    /\ status = "running" /\ s \in run
    /\ run' = run \ {s}
    /\ LET r == ResultOf(s)
           queue == /\ r.node /\ C.hasStencil
                    /\ ~Covered(C, refd, r.pos) /\ r.pos \notin posall
       IN /\ res' = res \cup {r}
          /\ posq' = IF queue THEN posq \cup {r.pos} ELSE posq
          /\ posall' = IF queue THEN posall \cup {r.pos} ELSE posall
    /\ UNCHANGED <<world, pend, refd, known, status, disk, crashes, fails, starts, skipped, base>>

\* ---- an evaluation fails: the search is aborted, and its state saved ----
Fail(s) ==
    /\ status = "running" /\ s \in run /\ fails < FailBudget
    /\ fails' = fails + 1
    /\ status' = "failed"
    /\ disk' = Snapshot
    /\ UNCHANGED <<world, pend, run, posq, refd, res, known, posall, crashes, starts, skipped, base>>

\* ---- periodic saving, the end of the search ----
Save ==
    /\ status = "running" /\ disk # Snapshot
    /\ disk' = Snapshot
    /\ UNCHANGED <<world, crashes, fails, base>> /\ UNCHANGED mem

Finished == run = {} /\ pend = {} /\ (posq = {} \/ ~C.hasStencil)
Return ==
    /\ status = "running" /\ Finished
    /\ status' = "done"
    /\ disk' = Snapshot
    /\ UNCHANGED <<world, pend, run, posq, refd, res, known, posall, crashes, fails, starts, skipped, base>>

\* ---- crash, or restart after a failure, or resuming a finished search ----
Restart ==
    /\ crashes < CrashBudget
    /\ crashes' = crashes + 1
    /\ status' = "running"
    /\ run' = {} /\ skipped' = {}
    /\ IF disk.none
       THEN /\ pend' = Mesh(C) /\ posq' = {} /\ refd' = {} /\ res' = {}
       ELSE /\ pend' = disk.pend /\ posq' = disk.posq /\ refd' = disk.refd /\ res' = disk.res
    /\ known' = pend' /\ posall' = posq' /\ base' = res'
    /\ starts' = [s \in pend' |-> 0]
    /\ UNCHANGED <<world, disk, fails>>

Loop == \/ \E s \in pend : Start(s) \/ Skip(s)
        \/ \E q \in posq : Refine(q) \/ Discard(q)
Next ==
    \/ Loop
    \/ \E s \in run : Complete(s) \/ Fail(s)
    \/ Save \/ Return \/ Restart

Spec == Init /\ [][Next]_vars
FairSpec ==
    /\ Spec
    /\ WF_vars(Loop) /\ WF_vars(Return) /\ WF_vars(Save)
    /\ WF_vars(\E s \in run : Complete(s))

\* ------------------------------ properties ------------------------------
FinishedSimplices == {r.s : r \in res}
SkippedSimplices == {x.s : x \in skipped}

\* C01
EveryoneAccountedFor ==
    /\ \A s \in known :
          \/ s \in pend \/ s \in run \/ s \in FinishedSimplices
          \/ \E x \in skipped : x.s = s /\ MaySkip(C, x.nodes, s)
    /\ pend \cap run = {} /\ (pend \cup run) \cap SkippedSimplices = {}
    /\ (pend \cup run) \cap {r.s : r \in res \ base} = {}
    /\ \A s \in DOMAIN starts : starts[s] <= 1
    /\ \A r \in res \ base : starts[r.s] = 1
    /\ known \subseteq Mesh(C) \cup UNION {Launch(C, q) : q \in refd}
AtReturn == status = "done" => Finished
\* C02
ParallelLimit == Cardinality(run) <= C.par
WorkConserving ==
    (status = "running" /\ ~ENABLED Loop /\ Cardinality(run) < C.par)
        => pend = {} /\ (posq = {} \/ ~C.hasStencil)
\* C03
OneResultEach == \A r1, r2 \in res : r1.s = r2.s => r1 = r2
\* C04
NodesCovered ==
    C.hasStencil =>
        /\ \A p \in Nodes(res) : Covered(C, refd, p) \/ p \in posq
        /\ status = "done" => \A p \in Nodes(res) : Covered(C, refd, p)
RefinedAreNodes == refd \cup posq \subseteq Nodes(res)
Separated ==
    (C.doRecheck /\ C.recheck = 0) =>
        \A p, q \in refd : p # q => ~Near(C, p, q)
NoStencilNoRefinement == ~C.hasStencil => refd = {}
\* C05
LaunchedExactly ==
    \A q \in refd : \A s \in Launch(C, q) :
        s \in known \cup FinishedSimplices \cup SkippedSimplices
            \/ \E p \in Nodes(res) : \E j \in DOMAIN s : Near(C, p, s[j])
\* C06, C08: what is on disk is closed (nothing lost), and final at the end
ClosedDisk ==
    ~disk.none =>
        /\ disk.res \subseteq res /\ disk.refd \subseteq refd
        /\ C.hasStencil => \A p \in Nodes(disk.res) : Covered(C, disk.refd, p) \/ p \in disk.posq
        /\ \A s \in Mesh(C) \cup UNION {Launch(C, q) : q \in disk.refd} :
              \/ s \in disk.pend \/ s \in {r.s : r \in disk.res}
              \/ MaySkip(C, Nodes(disk.res), s)
SavedAtEnd == status \in {"done", "failed"} => disk = Snapshot
\* C07
ResultsKept == base \subseteq res
RunningIsPending == ~disk.none => (status = "failed" => run \subseteq disk.pend)
\* C17
ScheduleIndependent ==
    (~C.hasStencil /\ C.check > Dim(C.box) /\ status = "done")
        => res = {ResultOf(s) : s \in Mesh(C)}
\* C28
NotCovered ==
    [][\A s \in run' \ run : ~MustSkip(C, Nodes(res), s)]_vars
\* the disk is only ever replaced by the current state, and results are not forgotten
DiskIsCurrent == [][disk' # disk => disk' = Snapshot']_vars
ResultsGrow == [][crashes' = crashes => res \subseteq res' /\ refd \subseteq refd']_vars
\* a finished search stays finished, until it is resumed
Terminates == <>(status \in {"done", "failed"})
SavedEventually == []<>(disk = Snapshot)
=============================================================================
