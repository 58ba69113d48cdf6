------------------------------ MODULE NMTrace ------------------------------
(***************************************************************************)
(* Judges recorded minimizations.  A record describes one or (with fake    *)
(* potential) two joined runs: log (evaluations in order, true values),    *)
(* hist (simplices with values), the options, and the result.              *)
(***************************************************************************)
EXTENDS Vectors, NelderMead, SearchCore

Lattice(S) == \A j \in DOMAIN S : \A k \in DOMAIN S[j][1] : AbsV(S[j][1][k]) < 67108864 /\ S[j][1][k] # 0 - 7777777

Values_(S) == [j \in DOMAIN S |-> S[j][2]]

RECURSIVE Walk(_, _, _, _, _)
\* hist[k] is the current simplex, log[i] the next evaluation
Walk(hist, k, log, i, o) ==
    LET S == hist[k]
        fev == i - 1
    IN  IF ~Lattice(S) THEN {<<"X", "off_lattice", k>>}
        ELSE IF k = Len(hist)
        THEN Clause(i = Len(log) + 1, "C14", "extra_evaluations", <<i, Len(log)>>)
             \cup Clause(Stop(o, S, fev, k), "C15", "stopped_early", <<k, fev>>)
        ELSE IF Stop(o, S, fev, k) THEN {<<"C15", "not_stopped", ToString(<<k, fev>>)>>}
        ELSE IF ~Exact(S) THEN {<<"X", "off_lattice", k>>}
        ELSE LET r == Iterate(S, log, i)
             IN  IF ~r.ok THEN {<<"C14", r.what, ToString(<<k, S>>)>>}
                 ELSE IF ~Bag_(r.new, hist[k + 1]) THEN {<<"C14", "wrong_simplex_after_" \o r.what, ToString(<<k, S, hist[k + 1]>>)>>}
                 ELSE IF ~Sorted(hist[k + 1]) THEN {<<"C14", "not_sorted", ToString(<<k, hist[k + 1]>>)>>}
                 ELSE Walk(hist, k + 1, log, i + r.used, o)

Run(start, hist, log, o) ==
    LET n == Len(start)
    IN  IF Len(log) < n THEN {<<"C14", "initial_evaluations", ToString(Len(log))>>}
        ELSE LET first == [j \in 1..n |-> log[j]]
             IN  IF ~Bag_([j \in 1..n |-> first[j][1]], start) THEN {<<"C14", "initial_points", ToString(first)>>}
                 ELSE IF Len(hist) = 0 \/ ~Bag_(first, hist[1]) THEN {<<"C14", "initial_simplex", ToString(first)>>}
                 ELSE IF ~Sorted(hist[1]) THEN {<<"C14", "not_sorted", ToString(hist[1])>>}
                 ELSE Walk(hist, 1, log, n + 1, o)

Result(res, hist, log, o, infv) ==
    LET last == hist[Len(hist)]
        status == Status(o, last, Len(log), Len(hist))
    IN  Clause(res.pos = last[1][1], "C15,C03", "pos", <<res.pos, last[1]>>)
        \cup Clause(res.value = last[1][2], "C15,C03", "value", <<res.value, last[1]>>)
        \cup Clause(res.nfev = Len(log), "C15", "num_fev", <<res.nfev, Len(log)>>)
        \cup Clause(res.niter = Len(hist), "C15", "num_iter", <<res.niter, Len(hist)>>)
        \cup Clause(res.status = status /\ res.success = (status = 0) /\ res.msg = status, "C15", "status", <<res, status>>)

\* without history only the last simplex is kept
NoHistory(r) == Clause(r.nohist, "C15", "no_history", "")

Near_(c, nodes, x) == \E j \in DOMAIN nodes : nodes[j] # x /\ Near(c, nodes[j], x)
Effective(r, log) ==
    LET c == [box |-> BoxOf(r.limits, r.per), feature |-> r.feature]
    IN TLCEval([j \in DOMAIN log |-> <<log[j][1], IF Near_(c, r.nodes, log[j][1]) THEN Inf ELSE log[j][2]>>])

Retag(v, t) == {<<t, x[2], x[3]>> : x \in {y \in v : y[1] # "X"}}
Blowup(S) == [j \in DOMAIN S |-> [k \in Axes(S) |-> S[1][1][k] + (3 * (S[j][1][k] - S[1][1][k])) \div 2]]
CanBlowup(S) == \A j \in DOMAIN S : \A k \in Axes(S) : (S[j][1][k] - S[1][1][k]) % 2 = 0

\* Where the first run ends: <<number of simplices, number of evaluations>>,
\* <<0, 0>> if it does not get there.
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(hist, k, log, i, o) ==
    IF k > Len(hist) THEN <<0, 0>>
    ELSE LET S == hist[k]
         IN IF ~Lattice(S) THEN <<0, 0>>
            ELSE IF Stop(o, S, i - 1, k) THEN <<k, i - 1>>
            ELSE IF ~Exact(S) THEN <<0, 0>>
            ELSE LET r == Iterate(S, log, i)
                 IN IF ~r.ok THEN <<0, 0>> ELSE SplitAt(hist, k + 1, log, i + r.used, o)

FakeVerdict(r) ==
    LET log1 == Effective(r, r.log)
        o1 == [r.opt EXCEPT !.ftol2 = -1]
        n == Len(r.start)
        split == IF Len(log1) < n \/ Len(r.hist) = 0 THEN <<0, 0>> ELSE TLCEval(SplitAt(r.hist, 1, log1, n + 1, o1))
        hist1 == SubSeq(r.hist, 1, split[1])
        hist2 == SubSeq(r.hist, split[1] + 1, Len(r.hist))
        log2 == SubSeq(r.log, split[2] + 1, Len(r.log))
    IN  IF split[1] = 0 THEN Retag(Run(r.start, r.hist, log1, o1), "C16")
        ELSE LET v1 == Run(r.start, hist1, SubSeq(log1, 1, split[2]), o1)
                 last == hist1[split[1]]
             IN  IF v1 # {} THEN Retag(v1, "C16")
                 ELSE IF ~Lattice(last) \/ ~CanBlowup(last) THEN {}
                 ELSE IF hist2 = <<>> \/ log2 = <<>> THEN {<<"C16", "no_second_run", ToString(<<Len(r.hist), Len(r.log)>>)>>}
                 ELSE LET v2 == Run(TLCEval(Blowup(last)), hist2, log2, r.opt)
                          res == [r.res EXCEPT !.nfev = @ - split[2], !.niter = @ - split[1]]
                      IN Retag(v2, "C16")
                         \cup (IF v2 = {} THEN Retag(Result(res, hist2, log2, r.opt, 0), "C16") ELSE {})

Verdict(r) ==
    CASE r.kind = "nm" ->
            LET v == Run(r.start, r.hist, r.log, r.opt)
                real == {x \in v : x[1] # "X"}
            IN  (IF r.nodes = <<>> THEN real ELSE {<<"C16," \o x[1], x[2], x[3]>> : x \in real})
                \cup (IF v = {} THEN Result(r.res, r.hist, r.log, r.opt, 0) ELSE {})
                \cup NoHistory(r)
      [] r.kind = "fake" -> FakeVerdict(r)
      \* several minimizations one after the other, which do not add up
      [] r.kind = "unmatched" -> {<<"C16", "minimizations_one_by_one", r.why>>}
      \* default limits, functions without a minimum
      [] r.kind = "limits" ->
            LET d == r.n
                maxfev == IF r.maxfev < 0 THEN 200 * d ELSE r.maxfev
                maxiter == IF r.maxiter < 0 THEN 200 * d ELSE r.maxiter
                fevout == r.nfev >= maxfev
            IN  Clause(r.nfev < maxfev + d + 2, "C15", "too_many_evaluations", <<r.nfev, maxfev>>)
                \cup Clause(r.niter <= Max2(1, maxiter), "C15", "too_many_iterations", <<r.niter, maxiter>>)
                \cup Clause(fevout \/ r.niter >= maxiter, "C15", "stopped_early", <<r.nfev, r.niter>>)
                \cup Clause(r.status = (IF fevout THEN 1 ELSE 2) /\ ~r.success, "C15", "status", r.status)

RealVerdict(r) == {v \in Verdict(r) : v[1] # "X"}
Judged == AtRecord => Report(RealVerdict(Trace[pos]))
=============================================================================
