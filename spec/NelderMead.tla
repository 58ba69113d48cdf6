----------------------------- MODULE NelderMead -----------------------------
(***************************************************************************)
(* The minimization of one starting simplex.  A simplex is a sequence of   *)
(* <<vertex, value>>, sorted by value.  Coordinates are integers, chosen   *)
(* such that all divisions are exact; Inf is an infinite value.            *)
(*                                                                         *)
(* The function is known through a log of evaluations <<point, value>>:    *)
(* Iterate(S, log, i) is the outcome of one iteration on S which consumes  *)
(* the log from position i.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 536870912    \* 2^29
INan == 536870913

Rng_(s) == {s[i] : i \in DOMAIN s}
Cnt_(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Bag_(s, t) == /\ Len(s) = Len(t)
              /\ \A v \in Rng_(s) : Cnt_(s, v) = Cnt_(t, v)
AbsV(x) == IF x < 0 THEN -x ELSE x

NN(S) == Len(S) - 1
RECURSIVE SumCoord(_, _, _)
SumCoord(S, k, n) == IF n = 0 THEN 0 ELSE S[n][1][k] + SumCoord(S, k, n - 1)
\* N times the centroid of all but the worst vertex
Cen(S, k) == SumCoord(S, k, NN(S))
Worst(S) == S[Len(S)][1]
Axes(S) == DOMAIN S[1][1]

Reflection(S)  == TLCEval([k \in Axes(S) |-> (2 * Cen(S, k) - NN(S) * Worst(S)[k]) \div NN(S)])
Expansion(S)   == TLCEval([k \in Axes(S) |-> (3 * Cen(S, k) - 2 * NN(S) * Worst(S)[k]) \div NN(S)])
Outside(S)     == TLCEval([k \in Axes(S) |-> (3 * Cen(S, k) - NN(S) * Worst(S)[k]) \div (2 * NN(S))])
Inside(S)      == TLCEval([k \in Axes(S) |-> (Cen(S, k) + NN(S) * Worst(S)[k]) \div (2 * NN(S))])
Shrunk(S, j)   == TLCEval([k \in Axes(S) |-> (S[1][1][k] + S[j][1][k]) \div 2])
\* are all of these exact?
Exact(S) ==
    \A k \in Axes(S) :
        /\ Cen(S, k) % (2 * NN(S)) = 0
        /\ \A j \in DOMAIN S : S[j][1][k] % 2 = 0

Replace(S, x) == TLCEval([S EXCEPT ![Len(S)] = x])

At(log, i, x) == i <= Len(log) /\ log[i][1] = x
Fine(S, used, what) == [ok |-> TRUE, new |-> S, used |-> used, what |-> what]
Wrong(S, what) == [ok |-> FALSE, new |-> S, used |-> 0, what |-> what]

\* all but the best vertex halfway towards it, evaluated in any order
Shrink(S, log, i, used) ==
    LET n == NN(S)
        points == TLCEval([j \in 1..n |-> Shrunk(S, j + 1)])
        part == [j \in 1..n |-> log[i + j - 1]]
    IN IF i + n - 1 > Len(log) THEN Wrong(S, "shrink_evaluations")
       ELSE IF ~Bag_([j \in 1..n |-> part[j][1]], points) THEN Wrong(S, "shrink_points")
       ELSE Fine(TLCEval(<<S[1]>> \o part), used + n, "shrink")

Iterate(S, log, i) ==
    LET n == NN(S)
        f1 == S[1][2]
        fn == S[n][2]
        fw == S[n + 1][2]
    IN IF ~At(log, i, Reflection(S)) THEN Wrong(S, "reflection_point")
       ELSE LET r == log[i]
            IN IF r[2] < f1
               THEN IF ~At(log, i + 1, Expansion(S)) THEN Wrong(S, "expansion_point")
                    ELSE LET e == log[i + 1]
                         IN IF e[2] < r[2] THEN Fine(Replace(S, e), 2, "expand") ELSE Fine(Replace(S, r), 2, "reflect")
               ELSE IF r[2] < fn THEN Fine(Replace(S, r), 1, "reflect")
               ELSE IF r[2] < fw
               THEN IF ~At(log, i + 1, Outside(S)) THEN Wrong(S, "outside_contraction_point")
                    ELSE LET x == log[i + 1]
                         IN IF x[2] <= r[2] THEN Fine(Replace(S, x), 2, "outside") ELSE Shrink(S, log, i + 2, 2)
               ELSE IF ~At(log, i + 1, Inside(S)) THEN Wrong(S, "inside_contraction_point")
                    ELSE LET x == log[i + 1]
                         IN IF x[2] < fw THEN Fine(Replace(S, x), 2, "inside") ELSE Shrink(S, log, i + 2, 2)

Sorted(S) == \A j \in 1..(Len(S) - 1) : S[j][2] <= S[j + 1][2]

(* ------------------------------ termination ---------------------------- *)
\* o: xtol2, ftol2 (doubled; -1 if infinite), maxiter, maxfev, fp, fq (slope
\* cutoff fp / fq, none if fq = 0)
FDiff(a, b) ==   \* |a - b|, -1 if undefined
    IF (a = Inf /\ b = Inf) THEN -1
    ELSE IF a = Inf \/ b = Inf THEN Inf ELSE AbsV(a - b)
Within(tol2, d) == d >= 0 /\ (tol2 = -1 \/ (d < Inf /\ 2 * d <= tol2))
Converged(o, S) ==
    /\ \A j \in 2..Len(S) : \A k \in Axes(S) : Within(o.xtol2, AbsV(S[j][1][k] - S[1][1][k]))
    /\ \A j \in 2..Len(S) : Within(o.ftol2, FDiff(S[j][2], S[1][2]))
RECURSIVE Sq(_, _, _)
Sq(a, b, k) == IF k = 0 THEN 0 ELSE (a[k] - b[k]) * (a[k] - b[k]) + Sq(a, b, k - 1)
Edge2(S) ==
    LET all == {Sq(S[i][1], S[j][1], Len(S[i][1])) : i, j \in DOMAIN S}
    IN CHOOSE x \in all : \A y \in all : y <= x
TooSteep(o, S) ==
    /\ o.fq > 0
    /\ \/ S[1][2] = Inf
       \/ S[1][2] > 0 /\ S[1][2] * S[1][2] * o.fq * o.fq > o.fp * o.fp * Edge2(S)
Stop(o, S, fev, iter) ==
    fev >= o.maxfev \/ iter >= o.maxiter \/ TooSteep(o, S) \/ Converged(o, S)
Status(o, S, fev, iter) ==
    IF fev >= o.maxfev THEN 1 ELSE IF iter >= o.maxiter THEN 2 ELSE IF TooSteep(o, S) THEN 3 ELSE 0
=============================================================================
