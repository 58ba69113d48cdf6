----------------------------- MODULE SearchTrace -----------------------------
(***************************************************************************)
(* Judges recorded searches.  Each line of the trace is one run:           *)
(*   [c: configuration, gap: evaluated <<position, value>> pairs, ev: events]  *)
(* An event describes one macro step of the search between two points at   *)
(* which nothing was left to do but to wait for the gap function:          *)
(*   rel      simplices whose evaluations were answered (in this step)     *)
(*   started  simplices whose minimization was seen to start               *)
(*   snap     content of the save file at the end of the step              *)
(* The state before the step and the decisions defined in SearchCore tell  *)
(* which states may follow.  Verdicts are total: the violated clauses are  *)
(* reported together with the properties they belong to, and checking      *)
(* continues from the observed state.                                      *)
(***************************************************************************)
EXTENDS SearchCore, Json, IOUtils

VARIABLES tr, l, st
tvars == <<tr, l, st>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

NoState == [queued |-> {}, run |-> {}, posq |-> {}, refd |-> <<>>, res |-> <<>>,
            known |-> {}, crel |-> {}, cstart |-> <<>>, tags |-> "", loaded |-> <<>>]

Rng(s) == {s[i] : i \in DOMAIN s}
Cnt(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
CntS(res, s) == Cardinality({i \in DOMAIN res : res[i].s = s})
IsSet(s) == Cardinality(Rng(s)) = Len(s)
Nodes(res) == {res[i].pos : i \in {j \in DOMAIN res : res[j].node}}
Clause(holds, props, name, detail) ==
    IF holds THEN {} ELSE {<<props, name, ToString(detail)>>}

\* the configuration as used by SearchCore
CoreConfig(c) ==
    [box |-> BoxOf(c.limits, c.per), feature |-> c.feature, mesh |-> c.mesh,
     stencil |-> c.stencil, sden |-> c.sden, hasStencil |-> c.hasStencil, check |-> c.check,
     recheck |-> c.recheck, doRecheck |-> c.doRecheck, par |-> c.par, thr |-> c.thr]

Classified(c, r) == r.ok /\ r.val <= c.thr

(* --------------------------- one macro step ---------------------------- *)
\* New results: of the right simplices, one each, correctly reported.
ResultVerdict(c, gap, s0, rel, res1, t) ==
    LET new == {r \in Rng(res1) : Cnt(res1, r) > Cnt(s0.res, r)}
    IN  Clause(\A r \in Rng(s0.res) : Cnt(res1, r) >= Cnt(s0.res, r), "C03" \o t, "result_lost", Len(res1))
        \cup Clause(\A s \in rel : CntS(res1, s) - CntS(s0.res, s) >= 1, "C03" \o t, "result_missing",
                    {s \in rel : CntS(res1, s) - CntS(s0.res, s) < 1})
        \cup Clause(\A s \in rel : CntS(res1, s) - CntS(s0.res, s) <= 1, "C01,C03" \o t, "result_repeated",
                    {s \in rel : CntS(res1, s) - CntS(s0.res, s) > 1})
        \cup Clause(\A r \in new : r.s \in rel, "C01,C03" \o t, "result_foreign", {r.s : r \in {x \in new : x.s \notin rel}})
        \cup Clause(\A r \in new : r.node = Classified(c, r), "C03" \o t, "classification", new)
        \cup Clause(\A r \in new : r.pos = Normalize(c.box, r.end), "C03" \o t, "position", new)
        \cup Clause(\A r \in new : <<r.end, r.val>> \in gap, "C03" \o t, "value", new)

\* Refined and queued positions.
\* positions of the nodes found in a step (which may have been found before)
NewNodes(res0, res1) ==
    {r.pos : r \in {x \in Rng(res1) : x.node /\ Cnt(res1, x) > Cnt(res0, x)}}
PositionVerdict(c, s0, snap, t) ==
    LET refd0 == Rng(s0.refd)
        refd1 == Rng(snap.refd)
        posq1 == Rng(snap.posq)
        newrefd == {q \in refd1 : Cnt(snap.refd, q) > Cnt(s0.refd, q)}
        newnodes == NewNodes(s0.res, snap.res)
        candidates == s0.posq \cup newnodes
    IN  IF ~c.hasStencil
        THEN Clause(newrefd = {}, "C04,C05" \o t, "refined_without_stencil", newrefd)
             \cup Clause(posq1 = s0.posq, "C04,C07" \o t, "pending_positions_changed", posq1)
             \cup Clause(refd1 = refd0, "C07" \o t, "refined_positions_lost", refd1)
        ELSE Clause(refd0 \subseteq refd1, "C04,C07" \o t, "refined_positions_lost", refd0 \ refd1)
             \cup Clause(\A q \in refd1 : Cnt(snap.refd, q) <= Max2(1, Cnt(s0.refd, q)), "C04" \o t, "refined_twice", newrefd)
             \cup Clause(newrefd \subseteq candidates, "C04" \o t, "refined_not_a_new_node", newrefd \ candidates)
             \cup Clause(posq1 \subseteq candidates, "C04" \o t, "queued_not_a_new_node", posq1 \ candidates)
             \cup Clause(posq1 \cap refd1 = {} \/ (posq1 \cap refd1) \subseteq s0.posq \cap refd0, "C04" \o t, "refined_still_queued", posq1 \cap refd1)
             \cup Clause(IsSet(snap.posq), "C04" \o t, "queued_twice", snap.posq)
             \cup Clause(Refinable(c, refd0, newrefd), "C04" \o t, "refined_too_close", <<newrefd, refd0>>)
             \* nodes found are covered or queued
             \cup Clause(\A q \in newnodes : q \in posq1 \/ Covered(c, refd1, q), "C04" \o t,
                         "node_not_covered", {q \in newnodes : ~(q \in posq1 \/ Covered(c, refd1, q))})
             \* queued positions are refined, or dropped because of refined ones
             \cup Clause(\A q \in s0.posq : q \in posq1 \/ q \in refd1 \/ ~MayRefine(c, refd1, q), "C04" \o t,
                         "position_dropped", {q \in s0.posq : ~(q \in posq1 \/ q \in refd1 \/ ~MayRefine(c, refd1, q))})

\* Starting simplices.
SimplexVerdict(c, s0, rel, started, snap, t) ==
    LET startedS == Rng(started)
        pend1 == Rng(snap.pend)
        run1 == (s0.run \ rel) \cup (startedS \ rel)
        queued1 == pend1 \ run1
        newrefd == {q \in Rng(snap.refd) : Cnt(snap.refd, q) > Cnt(s0.refd, q)}
        launched == UNION {Launch(c, q) : q \in newrefd}
        fresh == launched \ s0.known
        avail == s0.queued \cup fresh
        nodes1 == Nodes(snap.res)
        \* the nodes surely known when a simplex was started in this step
        sure == IF Cardinality(rel) <= 1 /\ rel \cap startedS = {} THEN nodes1 ELSE Nodes(s0.res)
        foreign == startedS \ avail
        again == {s \in foreign : s \in s0.known}
    IN  Clause(again = {} /\ IsSet(started), "C01" \o t, "started_twice", <<again, started>>)
        \cup Clause(foreign \ again = {}, "C01,C05" \o t, "started_foreign", foreign \ again)
        \cup Clause(queued1 \subseteq avail, "C01,C05" \o t, "queued_foreign", queued1 \ avail)
        \cup Clause(\A s \in fresh : s \in pend1 \/ s \in startedS \/ MaySkip(c, nodes1, s), "C01,C05,C28" \o t, "launched_lost",
                    {s \in fresh : ~(s \in pend1 \/ s \in startedS \/ MaySkip(c, nodes1, s))})
        \cup Clause(\A s \in s0.queued : s \in pend1 \/ s \in startedS \/ MaySkip(c, nodes1, s), "C01,C28" \o t, "simplex_lost",
                    {s \in s0.queued : ~(s \in pend1 \/ s \in startedS \/ MaySkip(c, nodes1, s))})
        \cup Clause(rel \cap pend1 = {}, "C01" \o t, "finished_still_pending", rel \cap pend1)
        \cup Clause(IsSet(snap.pend), "C01" \o t, "pending_twice", snap.pend)
        \cup Clause(run1 \subseteq pend1, "C07" \o t, "running_not_pending", run1 \ pend1)
        \cup Clause(\A s \in startedS : ~MustSkip(c, sure, s), "C28" \o t, "covered_simplex_started",
                    {s \in startedS : MustSkip(c, sure, s)})
        \cup Clause(Cardinality(run1) <= c.par, "C02" \o t, "too_many_in_progress", Cardinality(run1))
        \cup Clause(Cardinality(run1) < c.par => queued1 = {} /\ (Rng(snap.posq) = {} \/ ~c.hasStencil), "C02" \o t,
                    "idle_slot", <<Cardinality(run1), Cardinality(queued1), snap.posq>>)

StepVerdict(c, gap, s0, rel, started, snap, t) ==
    ResultVerdict(c, gap, s0, rel, snap.res, t)
    \cup PositionVerdict(c, s0, snap, t)
    \cup SimplexVerdict(c, s0, rel, started, snap, t)

\* A state somewhere between s0 and the completion of rel (found on disk
\* after a crash or a failure): nothing is lost, nothing foreign added.
BetweenVerdict(c, gap, s0, rel, started, snap, t) ==
    LET new == {r \in Rng(snap.res) : Cnt(snap.res, r) > Cnt(s0.res, r)}
        newS == {r.s : r \in new}
        pend1 == Rng(snap.pend)
        refd1 == Rng(snap.refd)
        newrefd == {q \in refd1 : Cnt(snap.refd, q) > Cnt(s0.refd, q)}
        fresh == (UNION {Launch(c, q) : q \in newrefd}) \ s0.known
        nodes1 == Nodes(snap.res)
        dropped == {s \in s0.queued \cup s0.run \cup fresh : s \notin pend1 /\ s \notin newS}
    IN  Clause(\A r \in Rng(s0.res) : Cnt(snap.res, r) >= Cnt(s0.res, r), t, "saved_older_results", Len(snap.res))
        \cup Clause(newS \subseteq rel, t, "saved_foreign_result", newS \ rel)
        \cup Clause(newS \cap pend1 = {}, t, "saved_finished_still_pending", newS \cap pend1)
        \cup Clause(pend1 \subseteq s0.queued \cup s0.run \cup fresh, t, "saved_foreign_simplex", pend1 \ (s0.queued \cup s0.run \cup fresh))
        \cup Clause(\A s \in dropped : s \notin s0.run /\ MaySkip(c, nodes1, s), t, "saved_simplex_lost",
                    {s \in dropped : ~(s \notin s0.run /\ MaySkip(c, nodes1, s))})
        \cup Clause(Rng(s0.refd) \subseteq refd1, t, "saved_refined_lost", refd1)
        \cup Clause(c.hasStencil => \A q \in NewNodes(s0.res, snap.res) : q \in Rng(snap.posq) \/ Covered(c, refd1, q),
                    t, "saved_node_not_covered", snap.posq)
        \cup Clause(\A q \in s0.posq : q \in Rng(snap.posq) \/ (c.hasStencil /\ (q \in refd1 \/ ~MayRefine(c, refd1, q))),
                    t, "saved_position_lost", s0.posq)

\* What is found in place of save_file: "missing", "unreadable" or a "state".
\* e.before is what was there before the search, e.evals the positions
\* evaluated so far; s0.loaded holds what was found at an earlier time.
Older(old, snap) ==
    \/ \E r \in Rng(old.res) : Cnt(snap.res, r) < Cnt(old.res, r)
    \/ ~(Rng(old.refd) \subseteq Rng(snap.refd))
    \/ Rng(old.pend) \ Rng(snap.pend) # {} /\ Len(snap.res) < Len(old.res)
SameState(a, b) ==
    /\ Rng(a.res) = Rng(b.res) /\ Len(a.res) = Len(b.res)
    /\ Rng(a.pend) = Rng(b.pend) /\ Rng(a.refd) = Rng(b.refd) /\ Rng(a.posq) = Rng(b.posq)
FileVerdict(c, gap, s0, e, p) ==
    IF e.file = "unreadable" THEN {<<p, "file_unreadable", ToString(<<e.detail>>)>>}
    ELSE IF e.file = "missing"
    THEN Clause(~e.had /\ s0.loaded = <<>>, p, "file_missing", e.had)
    ELSE IF ~e.before.none /\ SameState(e.before, e.snap) THEN {}   \* not yet replaced
    ELSE LET evaluated == Rng(e.evals)
             done == {r.s : r \in {x \in Rng(e.snap.res) : Rng(x.s) \subseteq evaluated}}
         IN BetweenVerdict(c, gap, s0, done, <<>>, e.snap, p)
\* (a search which starts from scratch may replace the file of a previous one)
Found(e, s0) == IF e.file = "state" /\ ~(~e.before.none /\ SameState(e.before, e.snap)) THEN [s0 EXCEPT !.loaded = <<e.snap>>] ELSE s0
TornVerdict(c, gap, s0, e) ==
    FileVerdict(c, gap, s0, e, "C06")
    \cup Clause(e.file # "state" \/ s0.loaded = <<>> \/ ~Older(s0.loaded[1], e.snap), "C06", "older_state", <<e.at, e.op>>)
FailsaveVerdict(c, gap, s0, e) ==
    FileVerdict(c, gap, s0, e, "C10")
    \cup Clause(e.hits > 0 => e.raised, "C10", "error_not_raised", <<e.at, e.op, e.persist>>)
    \cup Clause(e.left = <<>> \/ e.op = "u", "C10", "files_left", <<e.at, e.op, e.left>>)
    \* everything fails from that operation on: nothing changes any more
    \cup Clause(e.persist /\ e.op # "u" => e.same, "C10", "content_changed", <<e.at, e.op>>)
    \cup Clause((e.file = "state" /\ ~e.prev.none) => ~Older(e.prev, e.snap), "C10", "older_state", <<e.at, e.op>>)

(* ----------------------------- the events ------------------------------ *)
Comma(t) == IF t = "" THEN "" ELSE "," \o t
Opt == INSTANCE Options WITH o <- 0, force <- 0, pc <- 0, outcome <- 0, mesh <- 0

\* state at the beginning of a process
StartState(c, e) ==
    LET mesh == Mesh(c)
        \* results of a loaded state, seen with the limits and threshold of this call
        reclass(r) == [r EXCEPT !.pos = Normalize(c.box, r.pos), !.node = Classified(c, r)]
    IN IF e.kind = "fresh"
       THEN [NoState EXCEPT !.queued = mesh, !.known = mesh, !.tags = e.tags]
       ELSE LET p == Rng(e.loaded.pend) \cup (IF e.force THEN mesh ELSE {})
            IN [NoState EXCEPT
                  !.queued = p, !.known = p, !.posq = Rng(e.loaded.posq), !.refd = e.loaded.refd,
                  !.res = [i \in DOMAIN e.loaded.res |-> reclass(e.loaded.res[i])],
                  !.tags = e.tags]

\* A search called with given options, none of whose own results is a node.
OptionVerdict(c, gap, e) ==
    LET decision == Opt!Decision(e.o)
        source == CHOOSE d \in decision : TRUE
        raises == decision \cap {"ValueError", "error"} # {}
    IN IF raises
       THEN Clause(IF decision = {"ValueError"} THEN e.outcome = "ValueError" ELSE e.outcome # "ok", "C11", "error_expected", <<e.o, e.outcome>>)
            \cup Clause(e.evals = 0, "C11", "evaluations_before_error", e.evals)
            \cup Clause(e.filesame, "C11", "file_touched_before_error", e.o)
       ELSE IF e.outcome # "ok" THEN {<<"C11", "unexpected_error", ToString(<<e.o, e.outcome>>)>>}
       ELSE LET s1 == StartState(c, [kind |-> IF source = "fresh" THEN "fresh" ELSE "load", force |-> e.force, tags |-> "",
                                     loaded |-> IF source = "file" THEN e.file ELSE e.state])
            IN StepVerdict(c, gap, s1, Rng(e.new), e.new, e.snap, ",C11")
               \cup Clause(Rng(e.snap.pend) = {}, "C11", "pending_left", e.snap.pend)
               \cup Clause(e.params = [limits |-> <<c.box.lo, c.box.hi>>, per |-> c.box.per, thr |-> c.thr, cut3 |-> c.feature],
                            "C11", "parameters", e.params)

After(c, s0, rel, started, snap) ==
    LET run1 == (s0.run \ rel) \cup (Rng(started) \ rel)
        newrefd == Rng(snap.refd) \ Rng(s0.refd)
    IN [s0 EXCEPT
          !.run = run1,
          !.queued = Rng(snap.pend) \ run1,
          !.posq = Rng(snap.posq),
          !.refd = snap.refd,
          !.res = snap.res,
          !.known = s0.known \cup (UNION {Launch(c, q) : q \in newrefd}) \cup Rng(started) \cup Rng(snap.pend),
          !.crel = {}, !.cstart = <<>>]

\* <<verdict, next state>>
Step(r, e, s0) ==
    LET c == CoreConfig(r.c[e.proc])
        gap == Rng(r.gap)
        t == Comma(s0.tags)
        rel == s0.crel \cup Rng(e.rel)
        started == s0.cstart \o e.started
    IN CASE e.e = "start" ->
              LET s1 == StartState(c, e)
              IN IF e.snap.none
                 THEN <<{}, [s1 EXCEPT !.cstart = e.started]>>
                 ELSE <<StepVerdict(c, gap, s1, {}, e.started, e.snap, Comma(e.tags)), After(c, s1, {}, e.started, e.snap)>>
         [] e.e = "step" ->
              IF e.snap.none
              THEN <<{}, [s0 EXCEPT !.crel = rel, !.cstart = started]>>
              ELSE IF e.stale
              THEN <<{<<"C08" \o t, "file_not_updated", ToString(e.rel)>>}, [s0 EXCEPT !.crel = rel, !.cstart = started]>>
              ELSE <<StepVerdict(c, gap, s0, rel, started, e.snap, t), After(c, s0, rel, started, e.snap)>>
         [] e.e = "crash" ->
              <<BetweenVerdict(c, gap, s0, rel, started, e.snap, "C06,C07"), NoState>>
         [] e.e = "fail" ->
              <<BetweenVerdict(c, gap, s0, rel, started, e.snap, "C09")
                \cup Clause((s0.run \cup Rng(started)) \cap Rng(e.failed) \subseteq Rng(e.snap.pend), "C09", "failed_not_pending", e.failed)
                \cup Clause(e.raised, "C09", "wrong_exception", e.exc)
                \cup Clause(\A s \in Rng(e.must) : CntS(e.snap.res, s) > CntS(s0.res, s), "C08,C09", "result_not_saved", e.must)
                \cup Clause(e.after = 0, "C09", "evaluations_after_failure", e.after), NoState>>
         [] e.e = "end" ->
              <<StepVerdict(c, gap, s0, rel, started, e.snap, t)
                \cup Clause((s0.run \cup Rng(started)) \subseteq rel, "C01" \o t, "returned_while_running", (s0.run \cup Rng(started)) \ rel)
                \cup Clause(Rng(e.snap.pend) = {}, "C01,C08" \o t, "returned_with_pending", e.snap.pend)
                \cup Clause(Rng(e.snap.posq) = {} \/ ~c.hasStencil, "C04,C08" \o t, "returned_with_positions", e.snap.posq)
                \cup Clause(e.same, "C08" \o t, "final_state_not_saved", e.detail), NoState>>
         [] e.e = "torn" -> <<TornVerdict(c, gap, s0, e), Found(e, s0)>>
         [] e.e = "whole" ->
              <<FileVerdict(c, gap, s0, e, "C06")
                \cup Clause(~e.raised, "C06", "search_raised", e.exc)
                \cup Clause(e.file = "state" /\ e.snap.pend = <<>>, "C06", "final_state_missing", e.detail), s0>>
         [] e.e = "failsave" -> <<FailsaveVerdict(c, gap, s0, e), s0>>
         [] e.e = "option" -> <<OptionVerdict(c, gap, e), NoState>>
         [] e.e = "stuck" ->
              <<{<<"C01,C02" \o t, "search_stuck", ToString(e.detail)>>}, NoState>>
         [] e.e = "raise" ->
              <<{<<"C01,C02,C03,C04,C05,C28" \o t, "search_raised", ToString(e.detail)>>}, NoState>>

Init == tr = 0 /\ l = 0 /\ st = [s |-> NoState, v |-> {}]
Next ==
    \/ /\ tr = 0
       /\ tr' \in DOMAIN Trace
       /\ l' = 0
       /\ UNCHANGED st
    \/ /\ tr > 0 /\ l < Len(Trace[tr].ev)
       /\ l' = l + 1
       /\ LET x == Step(Trace[tr], Trace[tr].ev[l + 1], st.s)
          IN st' = [s |-> x[2], v |-> x[1]]
       /\ UNCHANGED tr
Spec == Init /\ [][Next]_tvars

Report ==
    \A v \in st.v :
        PrintT("BAD|" \o v[1] \o "|" \o v[2] \o "|" \o ToString(tr) \o "|event " \o ToString(l) \o ": " \o v[3])
=============================================================================
