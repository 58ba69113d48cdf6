------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Where a search starts from, depending on the options it is called with: *)
(* o = [load, quiet, hasfile, hasstate, dims], dims telling whether limits *)
(* and initial_mesh_size agree. The decision is what was promised; the     *)
(* steps below are the order in which the implementation looks at them.    *)
(***************************************************************************)
EXTENDS Integers, TLC

\* set of admissible outcomes
Decision(o) ==
    IF ~o.dims
    THEN {"ValueError"} \cup (IF o.load /\ ~o.hasstate /\ ~o.hasfile /\ ~o.quiet THEN {"error"} ELSE {})
    ELSE IF o.load /\ o.hasstate THEN {"ValueError"}
    ELSE IF o.load THEN IF o.hasfile THEN {"file"} ELSE IF o.quiet THEN {"fresh"} ELSE {"error"}
    ELSE IF o.hasstate THEN {"state"} ELSE {"fresh"}
UsesMesh(outcome, force) == outcome = "fresh" \/ (outcome \in {"file", "state"} /\ force)

VARIABLES o, force, pc, outcome, mesh
vars == <<o, force, pc, outcome, mesh>>
Init ==
    /\ o \in [load : BOOLEAN, quiet : BOOLEAN, hasfile : BOOLEAN, hasstate : BOOLEAN, dims : BOOLEAN]
    /\ force \in BOOLEAN /\ pc = "dims" /\ outcome = "none" /\ mesh = FALSE
Go(p, out, m) == pc' = p /\ outcome' = out /\ mesh' = m /\ UNCHANGED <<o, force>>
Next ==
    \/ pc = "dims" /\ IF o.dims THEN Go("load", outcome, mesh) ELSE Go("end", "ValueError", mesh)
    \/ pc = "load" /\ IF ~o.load THEN Go("create", IF o.hasstate THEN "state" ELSE "none", mesh)
                      ELSE IF o.hasstate THEN Go("end", "ValueError", mesh)
                      ELSE IF o.hasfile THEN Go("create", "file", mesh)
                      ELSE IF o.quiet THEN Go("create", "none", mesh)
                      ELSE Go("end", "error", mesh)
    \/ pc = "create" /\ IF outcome = "none" THEN Go("end", "fresh", TRUE) ELSE Go("end", outcome, force)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Promised == pc = "end" => outcome \in Decision(o) /\ (outcome \notin {"ValueError", "error"} => mesh = UsesMesh(outcome, force))
Ends == <>(pc = "end")
=============================================================================
