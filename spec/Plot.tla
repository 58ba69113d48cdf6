-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What a plot has to show.  Positions are tuples of integers; a drawn     *)
(* path is a sequence of positions, whose segments join consecutive ones.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumOfSquares(_, _, _)
SumOfSquares(a, b, k) == IF k = 0 THEN 0 ELSE (a[k] - b[k]) * (a[k] - b[k]) + SumOfSquares(a, b, k - 1)
\* as it is drawn, without periodicity
Raw2(a, b) == SumOfSquares(a, b, Len(a))
\* cut: squared length above which edges cross the boundary (0: none do)
Drawable(cut, e) == cut = 0 \/ \A a, b \in e : Raw2(a, b) <= cut

RECURSIVE Segments(_)
Segments(paths) ==
    IF paths = <<>> THEN <<>>
    ELSE IF Len(Head(paths)) < 2 THEN Segments(Tail(paths))
    ELSE LET p == Head(paths) IN [i \in 1..(Len(p) - 1) |-> {p[i], p[i + 1]}] \o Segments(Tail(paths))
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameCounts(s, t) == Len(s) = Len(t) /\ \A v \in Rng(s) \cup Rng(t) : Count(s, v) = Count(t, v)

\* all edges of a simplex
RECURSIVE PairsOf(_)
PairsOf(s) == IF Len(s) < 2 THEN <<>> ELSE [i \in 1..(Len(s) - 1) |-> {s[1], s[i + 1]}] \o PairsOf(Tail(s))
RECURSIVE AllPairs(_)
AllPairs(ss) == IF ss = <<>> THEN <<>> ELSE PairsOf(Head(ss)) \o AllPairs(Tail(ss))
=============================================================================
