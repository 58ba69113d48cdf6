---------------------------- MODULE Independent ----------------------------
(***************************************************************************)
(* Several searches of one process, one after the other or at the same     *)
(* time.  They share argument objects (limits, stencils, keyword           *)
(* arguments, states), and may continue from the state of another one.     *)
(* What a search gives is the sequence of values it has worked with;       *)
(* it must be the one it gives on its own, with fresh arguments, and the   *)
(* objects handed over, and the results finished before, stay as they are. *)
(*                                                                         *)
(* Protocol "copy" is how it is meant; the others are mistakes which must  *)
(* be found:                                                               *)
(*   "inplace"  a search changes the argument object when it begins        *)
(*   "scale"    it changes it for its own purposes, and back at the end    *)
(*   "memo"     what depends on the argument is kept for the next search   *)
(*   "shared"   what searches find is kept in one place for all of them    *)
(*   "alias"    a search continues in the list of the one it starts from   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Searches, Objects, NumSteps, Protocol

VARIABLES
    args,    \* the argument objects
    memo,    \* kept between searches (0: nothing)
    stage,   \* of every search: "new", "running", "failed" or "done"
    takes,   \* the object it has been given
    from,    \* the search it continues from, itself if none
    work,    \* the value it works with
    left,    \* steps it still has to do
    out      \* what it has found

vars == <<args, memo, stage, takes, from, work, left, out>>

Given == [o \in Objects |-> 10 * o]

Init ==
    /\ args = Given
    /\ memo = 0
    /\ stage = [s \in Searches |-> "new"]
    /\ takes = [s \in Searches |-> CHOOSE o \in Objects : TRUE]
    /\ from = [s \in Searches |-> s]
    /\ work = [s \in Searches |-> 0]
    /\ left = [s \in Searches |-> NumSteps]
    /\ out = [s \in Searches |-> <<>>]

Ended(s) == stage[s] \in {"done", "failed"}

Begin(s, o, f) ==
    /\ stage[s] = "new"
    /\ f = s \/ Ended(f)
    /\ \A t \in Searches : t < s => stage[t] /= "new"
    /\ stage' = [stage EXCEPT ![s] = "running"]
    /\ takes' = [takes EXCEPT ![s] = o]
    /\ from' = [from EXCEPT ![s] = f]
    /\ args' = IF Protocol \in {"inplace", "scale"} THEN [args EXCEPT ![o] = @ + 1] ELSE args
    /\ memo' = IF Protocol = "memo" /\ memo = 0 THEN args[o] ELSE memo
    /\ work' = [work EXCEPT ![s] = IF Protocol = "memo" THEN memo' ELSE args[o]]
    /\ out' = [out EXCEPT ![s] = IF f = s THEN <<>> ELSE out[f]]
    /\ UNCHANGED left

Step(s) ==
    /\ stage[s] = "running"
    /\ left[s] > 0
    /\ left' = [left EXCEPT ![s] = @ - 1]
    /\ out' = [t \in Searches |->
                 IF \/ t = s
                    \/ Protocol = "shared" /\ stage[t] = "running"
                    \/ Protocol = "alias" /\ t = from[s]
                 THEN Append(out[t], work[s]) ELSE out[t]]
    /\ UNCHANGED <<args, memo, stage, takes, from, work>>

\* An evaluation may fail at any time; the search ends there.
End(s, how) ==
    /\ stage[s] = "running"
    /\ how = "done" => left[s] = 0
    /\ stage' = [stage EXCEPT ![s] = how]
    /\ args' = IF Protocol = "scale" /\ how = "done" THEN [args EXCEPT ![takes[s]] = @ - 1] ELSE args
    /\ UNCHANGED <<memo, takes, from, work, left, out>>

Next == \E s \in Searches :
          \/ \E o \in Objects, f \in Searches : Begin(s, o, f)
          \/ Step(s)
          \/ End(s, "done")
          \/ End(s, "failed")
Spec == Init /\ [][Next]_vars

\* What a search gives on its own, after the given number of steps.
RECURSIVE Alone(_)
Alone(s) ==
    (IF from[s] = s THEN <<>> ELSE Alone(from[s])) \o [k \in 1..(NumSteps - left[s]) |-> Given[takes[s]]]

Unaffected == \A s \in Searches : stage[s] /= "new" => out[s] = Alone(s)
ArgsKept == args = Given
EndedKept == [][\A s \in Searches : Ended(s) => stage'[s] = stage[s] /\ out'[s] = out[s]]_vars
=============================================================================
