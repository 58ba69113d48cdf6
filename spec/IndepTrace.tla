---------------------------- MODULE IndepTrace ----------------------------
(***************************************************************************)
(* Judges what several searches of one process have given, and what has    *)
(* become of the objects handed to them (cf. Independent).  Values are     *)
(* numbers identifying them.  want[p] is what problem p gives in a process *)
(* of its own; args[i] the argument objects before anything has happened.  *)
(* After each event i of the process, ev[i].got has what the problems      *)
(* which ended in it gave, ev[i].args the arguments, and ev[i].ended the   *)
(* results of all searches which have ended so far.                        *)
(***************************************************************************)
EXTENDS Vectors

Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]

Verdict(r) ==
    UNION {
        LET ev == r.ev[i] IN
        UNION {
            Clause(SameBag(ev.got[k].res, r.want[ev.got[k].prob]), "C29", "results", <<r.about, i, ev.how, ev.got[k].prob>>)
            : k \in DOMAIN ev.got}
        \cup Clause(ev.args = r.args, "C29", "arguments",
                    <<r.about, i, ev.how, {r.names[a] : a \in {b \in DOMAIN r.args : ev.args[b] /= r.args[b]}}>>)
        \cup Clause(i = 1 \/ Prefix(r.ev[i - 1].ended, ev.ended), "C29", "ended", <<r.about, i, ev.how>>)
        : i \in DOMAIN r.ev}
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
