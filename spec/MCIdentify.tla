----------------------------- MODULE MCIdentify -----------------------------
(***************************************************************************)
(* The identification as a state machine: positions are compared pair by   *)
(* pair, in any order, and joined to groups; one of the groups is chosen,  *)
(* and its dimension is determined from positions drawn in any order; then *)
(* its line graph is grown by walks from position to position, which end   *)
(* when they have no way to go or reach the graph again.                   *)
(* Everything for all sets of at most MaxPos positions in a small box.     *)
(***************************************************************************)
EXTENDS Identify

CONSTANTS SizeX, SizeY, Periodic, F, MaxPos, Least,
          AnyDims     \* local dimensions: arbitrary, not those of the geometry

Box == IF SizeY = 0
       THEN [lo |-> <<-1>>, hi |-> <<SizeX - 1>>, per |-> Periodic]
       ELSE [lo |-> <<-1, 2>>, hi |-> <<SizeX - 1, SizeY + 2>>, per |-> Periodic]
Cells == IF SizeY = 0 THEN {<<x>> : x \in -1..(SizeX - 2)}
         ELSE {<<x, y>> : x \in -1..(SizeX - 2), y \in 2..(SizeY + 1)}

VARIABLES P, phase, todo, part, cl, loc, cnt, drawn, dim, N, E, cur, onGraph, ends
vars == <<P, phase, todo, part, cl, loc, cnt, drawn, dim, N, E, cur, onGraph, ends>>
none == <<>>

Pairs(S) == {pr \in SUBSET S : Cardinality(pr) = 2}
Init ==
    /\ P \in {S \in SUBSET Cells : Cardinality(S) \in 1..MaxPos}
    /\ phase = "cluster" /\ todo = Pairs(P) /\ part = {{p} : p \in P}
    /\ cl = {} /\ loc = [x \in {} |-> 0] /\ cnt = [d \in 0..3 |-> 0] /\ drawn = {} /\ dim = 4
    /\ N = {} /\ E = {} /\ cur = none /\ onGraph = FALSE /\ ends = {}

(* ------------------------------- clusters ------------------------------ *)
GroupOf(p) == CHOOSE g \in part : p \in g
Join(pr) == LET gs == {GroupOf(p) : p \in pr} IN (part \ gs) \cup {UNION gs}
\* (to keep the number of orders small, pairs which are not linked are skipped)
Compare ==
    /\ phase = "cluster"
    /\ \E pr \in todo :
          /\ \A a, b \in pr : a = b \/ Linked(Box, F, a, b)
          /\ part' = Join(pr)
          /\ todo' = todo \ {pr}
    /\ UNCHANGED <<P, phase, cl, loc, cnt, drawn, dim, N, E, cur, onGraph, ends>>
Geometric(c) ==
    LET nb == TLCEval([p \in c |-> Nbrs(Box, F, c, p)])
    IN [p \in c |-> LocalDims([q \in nb[p] |-> Vec(Box, p, q)], F, Dim(Box))]
ChooseCluster ==
    /\ phase = "cluster"
    /\ \A pr \in todo : \E a, b \in pr : a # b /\ ~Linked(Box, F, a, b)
    /\ phase' = "dim"
    /\ \E c \in part :
          /\ cl' = c
          /\ IF AnyDims /\ Cardinality(c) > 1 THEN loc' \in [c -> {{0}, {1}, {2}, {0, 1}}] ELSE loc' = Geometric(c)
    /\ UNCHANGED <<P, todo, part, cnt, drawn, dim, N, E, cur, onGraph, ends>>

(* ------------------------------ dimension ------------------------------ *)
Agreed(d) == 3 * cnt[d] >= 2 * Cardinality(drawn)
Most == {d \in 0..3 : \A e \in 0..3 : cnt[e] <= cnt[d]}
Draw ==
    /\ phase = "dim" /\ drawn # cl
    /\ Cardinality(drawn) < Least \/ \A d \in Most : ~Agreed(d)
    /\ \E p \in cl \ drawn, d \in 0..3 :
          /\ d \in loc[p]
          /\ cnt' = [cnt EXCEPT ![d] = @ + 1]
          /\ drawn' = drawn \cup {p}
    /\ UNCHANGED <<P, phase, todo, part, cl, loc, dim, N, E, cur, onGraph, ends>>
Decide ==
    /\ phase = "dim"
    /\ \/ /\ drawn = cl \/ Cardinality(drawn) >= Least
          /\ \E d \in Most : Agreed(d) /\ dim' = d
       \/ /\ drawn = cl /\ \A d \in Most : ~Agreed(d) /\ dim' = 4
    /\ phase' = IF dim' = 1 THEN "line" ELSE "done"
    /\ UNCHANGED <<P, todo, part, cl, loc, cnt, drawn, N, E, cur, onGraph, ends>>

(* --------------------------------- line -------------------------------- *)
nbr(p) == Nbrs(Box, F, cl, p)
Dominated == \A p \in cl : p \in N \/ nbr(p) \cap N # {}
NewEnds == {p \in N : Deg(E, p) = 1} \ ends
StartWalk ==
    /\ phase = "line" /\ cur = none /\ ~Dominated
    /\ IF NewEnds # {}
       THEN \E p \in NewEnds : cur' = p /\ ends' = ends \cup {p} /\ N' = N
       ELSE \E p \in cl \ (N \cup UNION {nbr(q) : q \in N}) : cur' = p /\ ends' = ends /\ N' = N \cup {p}
    /\ onGraph' = FALSE
    /\ UNCHANGED <<P, phase, todo, part, cl, loc, cnt, drawn, dim, E>>
Walk ==
    /\ phase = "line" /\ cur # none
    /\ \/ \E q \in nbr(cur) :
             IF q \in N /\ onGraph
             THEN cur' = none /\ UNCHANGED <<N, E, onGraph, ends>>
             ELSE /\ onGraph' = (q \in N)
                  /\ N' = N \cup {q} /\ E' = E \cup {{cur, q}}
                  /\ cur' = q /\ ends' = ends
       \/ /\ Deg(E, cur) > 0   \* nothing ahead
          /\ cur' = none /\ ends' = ends \cup {cur} /\ UNCHANGED <<N, E, onGraph>>
    /\ UNCHANGED <<P, phase, todo, part, cl, loc, cnt, drawn, dim>>
LineDone ==
    /\ phase = "line" /\ cur = none /\ Dominated
    /\ phase' = "done"
    /\ UNCHANGED <<P, todo, part, cl, loc, cnt, drawn, dim, N, E, cur, onGraph, ends>>
Done == phase = "done" /\ UNCHANGED vars

Next == Compare \/ ChooseCluster \/ Draw \/ Decide \/ StartWalk \/ Walk \/ LineDone
Spec == Init /\ [][Next \/ Done]_vars /\ WF_vars(Next)

(* ------------------------------ properties ----------------------------- *)
\* C21
Partition == UNION part = P /\ \A g, h \in part : g = h \/ g \cap h = {}
Components == phase # "cluster" => part = Clusters(Box, F, P)
Refines == \A g \in part : \E c \in Clusters(Box, F, P) : g \subseteq c
\* C22
Reported == phase \in {"line", "done"} => dim \in DimReportsFrom(Least, loc)
GeometricDims ==
    (phase \in {"line", "done"} /\ ~AnyDims) =>
        /\ dim = 4 \/ dim <= Dim(Box)
        /\ Cardinality(cl) = 1 => dim = 0
\* C23
LineGraph ==
    phase \in {"line", "done"} =>
        /\ N \subseteq cl
        /\ \A e \in E : e \subseteq N /\ Cardinality(e) = 2 /\ (\A a, b \in e : a = b \/ Linked(Box, F, a, b))
        /\ (phase = "done" /\ dim = 1) => \A p \in cl : p \in N \/ \E q \in N : Linked(Box, F, p, q)
Names ==
    LET dc == DegreeCount(N, E)
    IN ShapeName(dc) = "OPEN LINE" => Cardinality({p \in N : Deg(E, p) = 1}) = 2
\* C24: for groups smaller than half of the box the average depends neither on
\* the position it is seen from nor on where the group is
Compact(S) == \A a, b, c \in S : Add(Vec(Box, a, b), Vec(Box, b, c)) = Vec(Box, a, c)
Even(S) == \A a, b \in S : \A k \in DOMAIN a : 2 * AxisDist(Box, k, b[k] - a[k]) < Size(Box, k)
Averages ==
    phase = "dim" /\ drawn = {} /\ Compact(cl) /\ Even(cl) =>
        LET n == Cardinality(cl)
            avg == AverageN(Box, cl, CHOOSE p \in cl : TRUE)
            shift == [k \in 1..Dim(Box) |-> 1]
            moved == {Normalize(Box, Add(p, shift)) : p \in cl}
        IN /\ \A o \in cl : \A k \in DOMAIN o :
                 LET a == AverageN(Box, cl, o)[k] - avg[k]
                 IN IF Periodic THEN a % (n * Size(Box, k)) = 0 ELSE a = 0
           /\ IsAverage(Box, cl, avg)
           /\ Periodic => IsAverage(Box, moved, Add(avg, Scale(n, shift)))

Finishes == <>(phase = "done")
=============================================================================
