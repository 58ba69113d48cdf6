------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The box coordinate system on an integer lattice.  A box is a record     *)
(* [lo, hi, per]: lower and upper limits per direction, and whether the    *)
(* boundary conditions are periodic.  Positions are tuples of integers.    *)
(* All distances are kept squared, so that everything is exact.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

Dim(box) == Len(box.lo)
Size(box, k) == box.hi[k] - box.lo[k]

\* Limits may be given in any order.
BoxOf(limits, per) ==
    [lo |-> [k \in DOMAIN limits |-> Min2(limits[k][1], limits[k][2])],
     hi |-> [k \in DOMAIN limits |-> Max2(limits[k][1], limits[k][2])],
     per |-> per]

Add(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Scale(c, a) == [k \in DOMAIN a |-> c * a[k]]

\* Distance along one direction: to the nearest image if periodic.
AxisDist(box, k, d) ==
    IF box.per
    THEN LET r == d % Size(box, k) IN Min2(r, Size(box, k) - r)
    ELSE Abs(d)

Dist2(box, a, b) ==
    SumSeq([k \in DOMAIN a |-> LET x == AxisDist(box, k, b[k] - a[k]) IN x * x])

Norm2(v) == SumSeq([k \in DOMAIN v |-> v[k] * v[k]])

Equivalent(box, a, b) ==
    IF box.per
    THEN \A k \in DOMAIN a : (b[k] - a[k]) % Size(box, k) = 0
    ELSE a = b

Normalize(box, a) ==
    IF box.per
    THEN [k \in DOMAIN a |-> box.lo[k] + ((a[k] - box.lo[k]) % Size(box, k))]
    ELSE a

InLimits(box, a) ==
    \A k \in DOMAIN a : box.lo[k] <= a[k] /\ a[k] <= box.hi[k]

\* Fractional coordinates, as numerators over the box size.
FracNum(box, a) ==
    [k \in DOMAIN a |->
        IF box.per THEN (a[k] - box.lo[k]) % Size(box, k) ELSE a[k] - box.lo[k]]

\* v is a shortest vector from a to (an image of) b.
IsConnecting(box, a, b, v) ==
    /\ Equivalent(box, Add(a, v), b)
    /\ Norm2(v) = Dist2(box, a, b)

(***************************************************************************)
(* The cell list: positions are stored by cell, with n[k] cells along      *)
(* direction k; a query visits the cells around its own.  For open         *)
(* boundaries there is one extra layer of cells for everything outside.    *)
(***************************************************************************)
CellIndex(box, n, a) ==
    [k \in DOMAIN a |->
        IF box.per
        THEN ((((a[k] - box.lo[k]) % Size(box, k)) * n[k]) \div Size(box, k))
        ELSE LET x == (a[k] - box.lo[k]) * n[k]
                 \* conversion to integers truncates towards zero
                 c == IF x >= 0 THEN x \div Size(box, k) ELSE -((-x) \div Size(box, k))
             IN Max2(0, Min2(c + 1, n[k] + 1))]

\* A single cell may be smaller than the cutoff, hence for open boundaries all
\* cells are visited in a direction with only one inner cell.
NeighbourCells(box, n, idx) ==
    IF box.per
    THEN {[k \in DOMAIN idx |-> (idx[k] + o[k]) % n[k]] : o \in [DOMAIN idx -> {-1, 0, 1}]}
    ELSE {c \in {[k \in DOMAIN idx |-> idx[k] + o[k]] : o \in [DOMAIN idx -> -2..2]} :
             \A k \in DOMAIN c : /\ c[k] >= 0
                                /\ c[k] <= n[k] + 1
                                /\ (n[k] = 1 \/ Abs(c[k] - idx[k]) <= 1)}

\* Cells are at least as wide as the cutoff (unless there is only one): cut2
\* is the squared cutoff, n the largest number of cells allowed, up to cap.
NumCells(box, cut2, cap) ==
    [k \in DOMAIN box.lo |->
        LET fits == {m \in 1..cap : Size(box, k) * Size(box, k) >= cut2 * m * m}
        IN IF fits = {} THEN 1 ELSE CHOOSE m \in fits : \A j \in fits : j <= m]

\* Indices of the stored positions pts which a query at q has to report.
BruteForce(box, cut2, pts, q) ==
    {i \in DOMAIN pts : Dist2(box, pts[i], q) < cut2}
CellLookup(box, n, cut2, pts, q) ==
    {i \in DOMAIN pts :
        /\ CellIndex(box, n, pts[i]) \in NeighbourCells(box, n, CellIndex(box, n, q))
        /\ Dist2(box, pts[i], q) < cut2}
=============================================================================
