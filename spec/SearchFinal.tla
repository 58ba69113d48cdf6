---------------------------- MODULE SearchFinal ----------------------------
(***************************************************************************)
(* Judges the outcome of realistic searches: continuous gap functions,     *)
(* complete minimizations, built-in stencils.  All lengths are rounded to  *)
(* a fine lattice; comparisons leave a tolerance on the permissive side.   *)
(* Record: c (configuration), starts (starting simplices of all results),  *)
(* nodes, refd, results as [pos, node, ok, below, fits, end].              *)
(***************************************************************************)
EXTENDS Vectors, SearchCore, SequencesExt

Tol == 3

CoreConfig(c) ==
    [box |-> BoxOf(c.limits, c.per), feature |-> c.feature, mesh |-> c.mesh,
     stencil |-> c.stencil, sden |-> c.sden, hasStencil |-> c.hasStencil, check |-> c.check,
     recheck |-> c.recheck, doRecheck |-> c.doRecheck]

ApproxV(a, b) == \A k \in DOMAIN a : Abs(a[k] - b[k]) <= Tol
ApproxS(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A i \in DOMAIN s : \E j \in DOMAIN t : ApproxV(s[i], t[j])
    /\ \A j \in DOMAIN t : \E i \in DOMAIN s : ApproxV(s[i], t[j])

\* squared distances with a tolerance; far away counts as far without squaring
FarAxis(c, a, b) == \E k \in DOMAIN a : AxisDist(c.box, k, b[k] - a[k]) > c.feature \div 3 + Tol
SurelyNear(c, a, b) ==
    LET r == c.feature \div 3 - Tol
    IN ~FarAxis(c, a, b) /\ r > 0 /\ Dist2(c.box, a, b) < r * r
MaybeNear(c, a, b) ==
    LET r == c.feature \div 3 + Tol
    IN ~FarAxis(c, a, b) /\ Dist2(c.box, a, b) < r * r

MayBeSkipped(c, nodes, s) ==
    Cardinality({j \in DOMAIN s : \E n \in nodes : MaybeNear(c, n, s[j])}) > c.check

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Verdict(r) ==
    LET c == CoreConfig(r.c)
        mesh == TLCEval(Mesh(c))
        sets == TLCEval([i \in DOMAIN r.refd |-> IF c.hasStencil THEN Launch(c, r.refd[i]) ELSE {}])
        launched == TLCEval(UNION Range(sets))
        pairs == IF c.hasStencil THEN (DOMAIN r.refd) \X (DOMAIN c.stencil) ELSE {}
        \* how often a simplex was launched (rounded ones may coincide)
        mult(s) == (IF s \in mesh THEN 1 ELSE 0)
                   + Cardinality({x \in pairs : LaunchOne(c, r.refd[x[1]], c.stencil[x[2]]) = s})
        source == TLCEval(mesh \cup launched)
        nodes == TLCEval({r.res[i].pos : i \in {j \in DOMAIN r.res : r.res[j].node}})
        starts == TLCEval([i \in DOMAIN r.res |-> r.res[i].s])
        refd == Range(r.refd)
        \* for each start: the simplices it can stem from
        sums == TLCEval([s \in source |-> SumSeq([j \in DOMAIN s |-> SumSeq(s[j])])])
        near == TLCEval([i \in DOMAIN starts |->
                    LET x == SumSeq([j \in DOMAIN starts[i] |-> SumSeq(starts[i][j])])
                    IN {s \in source : Abs(sums[s] - x) <= Tol * Len(s) * Len(s)}])
        origin == TLCEval([i \in DOMAIN starts |-> {s \in near[i] : ApproxS(starts[i], s)}])
        foreign == {i \in DOMAIN starts : origin[i] = {}}
        dealt == TLCEval(UNION Range(origin))
        omitted == TLCEval({s \in source \ dealt : ~MayBeSkipped(c, nodes, s)})
        twice == {i \in DOMAIN starts :
                    /\ c.doRecheck /\ c.recheck = 0
                    /\ origin[i] # {}
                    /\ Cardinality({j \in DOMAIN starts : origin[j] \cap origin[i] # {}}) > Cardinality(origin[i])
                    /\ LET all == SetToSeq(origin[i])
                       IN Cardinality({j \in DOMAIN starts : origin[j] \cap origin[i] # {}})
                            > SumSeq([k \in DOMAIN all |-> mult(all[k])])
                    /\ \A j \in DOMAIN starts : origin[j] \cap origin[i] # {} => origin[j] = origin[i]}
    IN  Clause(foreign = {}, "C01,C05", "foreign_start", {starts[i] : i \in foreign})
        \cup Clause(omitted \cap mesh = {}, "C01,C19", "mesh_simplex_omitted", omitted \cap mesh)
        \cup Clause(omitted \ mesh = {}, "C01,C05", "launched_simplex_omitted", omitted \ mesh)
        \cup Clause(twice = {}, "C01", "minimized_twice", {starts[i] : i \in twice})
        \cup Clause(\A i \in DOMAIN r.res : r.res[i].node = (r.res[i].ok /\ r.res[i].below), "C03", "classification", "")
        \cup Clause(\A i \in DOMAIN r.res : r.res[i].fits, "C03", "value", {r.res[i].pos : i \in {j \in DOMAIN r.res : ~r.res[j].fits}})
        \cup Clause(\A i \in DOMAIN r.res : r.c.per => InLimits(c.box, r.res[i].pos), "C03", "outside_limits", "")
        \cup Clause(~c.hasStencil => r.refd = <<>>, "C04,C05", "refined_without_stencil", "")
        \cup Clause(c.hasStencil => \A n \in nodes : \E q \in refd : MaybeNear(c, n, q), "C04", "not_covered",
                    {n \in nodes : ~\E q \in refd : MaybeNear(c, n, q)})
        \cup Clause(\A q \in refd : \E n \in nodes : ApproxV(n, q), "C04", "refined_no_node",
                    {q \in refd : ~\E n \in nodes : ApproxV(n, q)})
        \cup Clause((c.doRecheck /\ c.recheck = 0) =>
                        \A i, j \in DOMAIN r.refd : i < j => ~SurelyNear(c, r.refd[i], r.refd[j]), "C04", "refined_too_close", "")
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
