---------------------------- MODULE SaveProtocol ----------------------------
(***************************************************************************)
(* How the state of a search reaches save_file.  The state is abstracted   *)
(* to a version number; a file holds [v |-> version, whole |-> complete?]  *)
(* or does not exist.  Saving is a sequence of file operations, each of    *)
(* which may fail; the process may die between any two of them, and in the *)
(* middle of a write.  Protocol = "replace" is the protocol of the         *)
(* implementation; "inplace", "remove" and "early" are broken variants     *)
(* which the properties below have to reject.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC

CONSTANTS MaxVersion, MaxFaults, Protocol

VARIABLES
    version,   \* of the state in memory
    dirty,     \* the state has changed since it was saved
    disk,      \* contents of save_file, and of the temporary file
    pc,        \* run, write, close, rename, drop, ended, dead
    error,     \* a save has failed
    raised,    \* the search has raised
    faults,    \* number of faults so far
    initial,   \* version at the start
    floor      \* largest version save_file ever had

vars == <<version, dirty, disk, pc, error, raised, faults, initial, floor>>

None == [v |-> 0, whole |-> FALSE, exists |-> FALSE]
Whole(n) == [v |-> n, whole |-> TRUE, exists |-> TRUE]
Part(n) == [v |-> n, whole |-> FALSE, exists |-> TRUE]
Target == IF Protocol = "inplace" THEN "save" ELSE "tmp"

Init ==
    /\ \E old \in {0, 1} :
          /\ version = old + 1 /\ initial = old
          /\ disk = [save |-> IF old = 0 THEN None ELSE Whole(old), tmp |-> None]
          /\ floor = old
    /\ dirty = TRUE /\ pc = "run" /\ error = FALSE /\ raised = FALSE /\ faults = 0

Change ==
    /\ pc = "run" /\ version < MaxVersion
    /\ version' = version + 1 /\ dirty' = TRUE
    /\ UNCHANGED <<disk, pc, error, raised, faults, initial, floor>>

\* After a failure there are no further attempts, the error is raised in the end.
SaveStart ==
    /\ pc = "run" /\ dirty /\ ~error
    /\ disk' = [disk EXCEPT ![Target] = Part(version),
                            !.save = IF Protocol = "remove" THEN None
                                     ELSE IF Target = "save" THEN Part(version) ELSE @]
    /\ pc' = IF Protocol = "early" THEN "rename" ELSE "write"
    /\ UNCHANGED <<version, dirty, error, raised, faults, initial, floor>>
Write ==
    /\ pc = "write"
    /\ disk' = [disk EXCEPT ![IF Protocol = "early" THEN "save" ELSE Target] = Whole(version)]
    /\ pc' = "close"
    /\ UNCHANGED <<version, dirty, error, raised, faults, initial, floor>>
Close ==
    /\ pc = "close"
    /\ pc' = IF Protocol \in {"inplace", "early"} THEN "done" ELSE "rename"
    /\ UNCHANGED <<version, dirty, disk, error, raised, faults, initial, floor>>
Rename ==
    /\ pc = "rename"
    /\ disk' = [save |-> disk.tmp, tmp |-> None]
    /\ pc' = IF Protocol = "early" THEN "write" ELSE "done"
    /\ UNCHANGED <<version, dirty, error, raised, faults, initial, floor>>
Done ==
    /\ pc = "done"
    /\ dirty' = FALSE /\ pc' = "run" /\ floor' = Max({floor, disk.save.v})
    /\ UNCHANGED <<version, disk, error, raised, faults, initial>>
Fail ==
    /\ pc \in {"write", "close", "rename"} /\ faults < MaxFaults
    /\ pc' = "drop" /\ error' = TRUE /\ faults' = faults + 1
    /\ UNCHANGED <<version, dirty, disk, raised, initial, floor>>
Drop ==
    /\ pc = "drop"
    /\ disk' = [disk EXCEPT !.tmp = None] /\ pc' = "run"
    /\ UNCHANGED <<version, dirty, error, raised, faults, initial, floor>>

\* The search ends: by itself, after a last save or with the error.
End ==
    /\ pc = "run" /\ (error \/ ~dirty)
    /\ pc' = "ended" /\ raised' = error
    /\ UNCHANGED <<version, dirty, disk, error, faults, initial, floor>>
Die ==
    /\ pc \notin {"ended", "dead"}
    /\ pc' = "dead"
    /\ UNCHANGED <<version, dirty, disk, error, raised, faults, initial, floor>>

Next == Change \/ SaveStart \/ Write \/ Close \/ Rename \/ Done \/ Fail \/ Drop \/ End \/ Die
Spec == Init /\ [][Next]_vars

\* C06
Complete == disk.save.exists => disk.save.whole
NeverLost == floor > 0 => disk.save.exists
NeverOlder == disk.save.v >= floor
WasReal == disk.save.exists => disk.save.v <= version
\* C10
Clean == pc = "ended" => ~disk.tmp.exists
Told == pc = "ended" => (error <=> raised)
Kept == pc = "drop" => disk.save.v = floor
\* C08
Final == (pc = "ended" /\ ~raised) => disk.save = Whole(version)
=============================================================================
