------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* A queue in use, which is saved at any time and loaded again from the    *)
(* latest file at any time (the process was ended), with all histories of  *)
(* at most MaxOps operations on Objects.                                   *)
(***************************************************************************)
EXTENDS Store
CONSTANTS Objects, MaxOps, Runs, LoseRunning

VARIABLES q, file, finished, atSave, ops, loads
vars == <<q, file, finished, atSave, ops, loads>>

Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == q = EmptyQueue /\ file = <<>> /\ finished = {} /\ atSave = [pending |-> {}, finished |-> {}] /\ ops = 0 /\ loads = 0
Batches == {<<a>> : a \in Objects} \cup {<<a, b>> : a, b \in Objects}
AddObjects == \E b \in Batches : q' = QAdd(q, b) /\ UNCHANGED <<file, finished, atSave, loads>>
Pop == /\ q.waiting # <<>>
       /\ q' = QPop(q, Runs)
       /\ finished' = IF Runs THEN finished ELSE finished \cup {Head(q.waiting)}
       /\ UNCHANGED <<file, atSave, loads>>
Finish == /\ \E o \in q.running : q' = QFinish(q, o) /\ finished' = finished \cup {o}
          /\ UNCHANGED <<file, atSave, loads>>
SaveIt == /\ \E first \in Orders(IF LoseRunning THEN {} ELSE q.running) : file' = first \o q.waiting
          /\ atSave' = [pending |-> Pending(q), finished |-> finished]
          /\ UNCHANGED <<q, finished, loads>>
LoadIt == /\ q' = QLoad(file) /\ finished' = atSave.finished /\ loads' = loads + 1
          /\ UNCHANGED <<file, atSave>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (AddObjects \/ Pop \/ Finish \/ SaveIt \/ LoadIt)
Spec == Init /\ [][Next]_vars

\* nothing waits twice or waits and runs
Distinct == /\ \A i, j \in DOMAIN q.waiting : i # j => q.waiting[i] # q.waiting[j]
            /\ \A i \in DOMAIN q.waiting : q.waiting[i] \notin q.running
Seen == Pending(q) \subseteq q.seen
\* whatever was pending when the file was written is pending in it
FileComplete == {file[i] : i \in DOMAIN file} = atSave.pending
\* what was seen in this run is pending or was finished; nothing is done twice in one run
Conserved == q.seen \subseteq Pending(q) \cup finished
OnceWithoutLoad == loads = 0 => Pending(q) \cap finished = {}
=============================================================================
