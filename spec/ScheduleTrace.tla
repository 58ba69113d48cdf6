--------------------------- MODULE ScheduleTrace ---------------------------
(***************************************************************************)
(* Judges sets of searches on the same problem under different schedules.  *)
(* Results are given by numbers identifying all of their attributes:       *)
(* alone[i] is what starting simplex i gives on its own, runs[k].res and   *)
(* .nodes are all results and the nodes of the k-th search.                *)
(* Without refinement, fake potential and skipping, the results are those  *)
(* of the simplices, whatever the schedule (cf. ScheduleIndependent in     *)
(* NodeSearch).                                                            *)
(***************************************************************************)
EXTENDS Vectors

Picked(r) == SelectSeq(r.alone, LAMBDA x : x.node)
Sigs(s) == [i \in DOMAIN s |-> s[i].sig]
Verdict(r) ==
    LET all == TLCEval(Sigs(r.alone))
        nodes == TLCEval(Sigs(Picked(r)))
    IN UNION {
        Clause(r.runs[k].done, "C17", "no_result", <<r.about, r.runs[k].how, r.runs[k].what>>)
        \cup (IF ~r.runs[k].done THEN {} ELSE
              Clause(SameBag(r.runs[k].res, all), "C17", "results", <<r.about, r.runs[k].how>>)
              \cup Clause(SameBag(r.runs[k].nodes, nodes), "C17", "nodes", <<r.about, r.runs[k].how>>))
        : k \in DOMAIN r.runs}
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
