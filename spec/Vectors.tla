------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* Steps through the records of a recorded trace in independent blocks     *)
(* (so that all workers are used).  A module extending this one defines    *)
(* the verdict on one record, and the invariant Judged which reports it.   *)
(* Reported lines:  BAD|<properties>|<clause>|<record>|<detail>            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES blk, pos

Trace == ndJsonDeserialize(IOEnv.TRACE)
NumRec == Len(Trace)
NumBlocks == 64
First(b) == ((b - 1) * NumRec) \div NumBlocks + 1
Last(b) == (b * NumRec) \div NumBlocks

VInit == blk = 0 /\ pos = 0
VNext ==
    \/ /\ blk = 0
       /\ \E b \in 1..NumBlocks :
             /\ First(b) <= Last(b)
             /\ blk' = b
             /\ pos' = First(b) - 1
    \/ /\ blk > 0
       /\ pos < Last(blk)
       /\ pos' = pos + 1
       /\ UNCHANGED blk
VSpec == VInit /\ [][VNext]_<<blk, pos>>

AtRecord == blk > 0 /\ pos >= First(blk)

\* A verdict is a set of <<properties, clause, detail>>.
Clause(holds, props, name, detail) ==
    IF holds THEN {} ELSE {<<props, name, ToString(detail)>>}
Report(verdict) ==
    \A v \in verdict :
        PrintT("BAD|" \o v[1] \o "|" \o v[2] \o "|" \o ToString(pos) \o "|" \o v[3])

Cnt(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Range(s) == {s[i] : i \in DOMAIN s}
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A v \in Range(s) \cup Range(t) : Cnt(s, v) = Cnt(t, v)
=============================================================================
