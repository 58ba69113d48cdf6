------------------------------ MODULE Identify ------------------------------
(***************************************************************************)
(* The identification step on an integer lattice: clusters of positions,   *)
(* their dimension, and their shape.  box as in Geometry, f is the feature *)
(* size; positions are tuples of integers.                                 *)
(***************************************************************************)
EXTENDS Geometry

(* ------------------------------- clusters ------------------------------ *)
Linked(box, f, a, b) ==
    /\ \A k \in DOMAIN a : AxisDist(box, k, b[k] - a[k]) <= f
    /\ Dist2(box, a, b) <= f * f
Nbrs(box, f, P, p) == {q \in P : q # p /\ Linked(box, f, p, q)}

\* nb: function giving the neighbours of each position
RECURSIVE Closure(_, _, _)
Closure(nb, seen, front) ==
    IF front = {} THEN seen
    ELSE LET new == (UNION {nb[p] : p \in front}) \ seen
         IN Closure(nb, seen \cup new, new)
Component(nb, p) == Closure(nb, {p}, {p})
RECURSIVE ComponentsOf(_, _)
ComponentsOf(nb, rest) ==
    IF rest = {} THEN {}
    ELSE LET c == Component(nb, CHOOSE p \in rest : TRUE)
         IN {c} \cup ComponentsOf(nb, rest \ c)
Clusters(box, f, P) ==
    LET nb == TLCEval([p \in P |-> Nbrs(box, f, P, p)]) IN ComponentsOf(nb, P)

(* ------------------------------- vectors ------------------------------- *)
\* the (or a) shortest vector from a to b; for open boxes their difference
AxisVec(box, k, d) ==
    IF box.per
    THEN LET r == d % Size(box, k) IN IF 2 * r <= Size(box, k) THEN r ELSE r - Size(box, k)
    ELSE d
Vec(box, a, b) == [k \in DOMAIN a |-> AxisVec(box, k, b[k] - a[k])]
Dot(v, w) == SumSeq([k \in DOMAIN v |-> v[k] * w[k]])
Det3(u, v, w) ==
    u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])

RECURSIVE IS(_, _, _)
IS(n, lo, hi) == IF hi - lo <= 1 THEN lo
                 ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN IS(n, m, hi) ELSE IS(n, lo, m)
ISqrt(n) == IS(n, 0, 46340)

\* squared area of the parallelogram
Area2(v, w) == Dot(v, v) * Dot(w, w) - Dot(v, w) * Dot(v, w)
\* volume of the parallelepiped (a determinant, or that of the Gram matrix)
Volume(u, v, w) ==
    IF Len(u) = 3 THEN Abs(Det3(u, v, w))
    ELSE ISqrt(Det3(<<Dot(u, u), Dot(u, v), Dot(u, w)>>, <<Dot(u, v), Dot(v, v), Dot(v, w)>>, <<Dot(u, w), Dot(v, w), Dot(w, w)>>))

(* ------------------------------ dimension ------------------------------ *)
\* affine dimension of a set of vectors from one position, at most 3
Rank(all) ==
    LET V == {x \in all : Norm2(x) # 0}
    IN IF V = {} THEN 0
    ELSE LET v == CHOOSE x \in V : TRUE
             W == {w \in V : Area2(v, w) # 0}
         IN IF W = {} THEN 1
            ELSE IF Len(v) < 3 THEN 2
            ELSE LET w == CHOOSE x \in W : TRUE
                 IN IF \E u \in V : Volume(v, w, u) # 0 THEN 3 ELSE 2

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* Does the position with the vectors vec to its neighbours extend in at least d
\* directions?  The volume spanned with d of the neighbours is, on average, more
\* than half of what it would be for an evenly filled ball of radius f. Values are
\* scaled (lengths by 100, areas by 10); "unclear" close to the limit.
RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + SumOver(S \ {x}, g)
Subsets(V, d) == {T \in SUBSET V : Cardinality(T) = d}
ListOf(T) == CHOOSE s \in [1..Cardinality(T) -> T] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Spanned(vec, T, d) ==
    LET l == TLCEval(ListOf(T))
        s == [i \in 1..d |-> vec[l[i]]]
    IN IF d = 1 THEN ISqrt(Norm2(s[1]) * 10000)
       ELSE IF d = 2 THEN ISqrt(Area2(s[1], s[2]) * 100)
       ELSE Volume(s[1], s[2], s[3])
LimitOf(f, d) == IF d = 1 THEN 25 * f ELSE IF d = 2 THEN (283 * f * f) \div 200 ELSE (83 * f * f * f) \div 1000
Extends(vec, f, d, space, rank) ==
    LET V == DOMAIN vec IN
    IF d > space \/ d > rank \/ V = {} THEN "no"
    ELSE IF (d = 1 /\ Cardinality(V) > 10) \/ (d > 1 /\ Cardinality(V) > 5) THEN "unclear"
    ELSE LET Ts == TLCEval(Subsets(V, d))
             sum == SumOver(Ts, TLCEval([T \in Ts |-> Spanned(vec, T, d)]))
             limit == LimitOf(f, d) * Cardinality(Ts)
         IN IF sum > limit + limit \div 8 THEN "yes" ELSE IF sum < limit - limit \div 8 THEN "no" ELSE "unclear"
LocalDims(vec, f, space) ==
    LET rank == Rank({vec[n] : n \in DOMAIN vec})
        x == TLCEval([d \in 1..3 |-> Extends(vec, f, d, space, rank)])
    IN {d \in 0..3 : (\A e \in 1..d : x[e] # "no") /\ (d = 3 \/ x[d + 1] # "yes")}

\* What may be reported (4: undetermined) if loc gives the possible dimensions at
\* each position of a cluster: positions are evaluated in any order, at least
\* five (or all) of them, until two thirds of the evaluated ones agree.
MinEvaluated == 5
DimReportsFrom(minimum, loc) ==
    LET P == DOMAIN loc
        n == Cardinality(P)
        hi(d) == Cardinality({p \in P : d \in loc[p]})
        lo(d) == Cardinality({p \in P : loc[p] = {d}})
        least == Min2(n, minimum)
        \* some number m of evaluated positions, of which two thirds may agree
        may(d) == \E m \in least..n : 3 * Min2(hi(d), m) >= 2 * m
    IN {d \in 0..3 : may(d) /\ \A e \in 0..3 \ {d} : lo(e) < n}
       \cup (IF \E d \in 0..3 : 3 * lo(d) >= 2 * n THEN {} ELSE {4})
DimReports(loc) == DimReportsFrom(MinEvaluated, loc)

(* -------------------------------- points ------------------------------- *)
\* N times the average of the N positions in P, as seen from o
RECURSIVE SumVec(_, _, _, _)
SumVec(box, o, S, zero) ==
    IF S = {} THEN zero
    ELSE LET p == CHOOSE x \in S : TRUE IN Add(Vec(box, o, p), SumVec(box, o, S \ {p}, zero))
AverageN(box, P, o) == Add(Scale(Cardinality(P), o), SumVec(box, o, P, [k \in DOMAIN o |-> 0]))
\* avg: N times the reported location
IsAverage(box, P, avg) ==
    LET n == Cardinality(P)
    IN \E o \in P : LET a == AverageN(box, P, o)
                    IN \A k \in DOMAIN avg :
                          IF box.per THEN (a[k] - avg[k]) % (n * Size(box, k)) = 0 ELSE a[k] = avg[k]
AvgInLimits(box, n, avg) == \A k \in DOMAIN avg : n * box.lo[k] <= avg[k] /\ avg[k] <= n * box.hi[k]

(* -------------------------------- lines -------------------------------- *)
Deg(E, p) == Cardinality({e \in E : p \in e})
\* multiset of degrees other than two, as a set of <<degree, number>>
DegreeCount(N, E) ==
    LET deg == TLCEval([p \in N |-> Deg(E, p)])
    IN {<<d, Cardinality({p \in N : deg[p] = d})>> : d \in {deg[p] : p \in N} \ {2}}
ShapeName(dc) == IF dc = {} THEN "CLOSED LOOP" ELSE IF dc = {<<1, 2>>} THEN "OPEN LINE" ELSE "UNKNOWN"
Connected(N, E) ==
    N = {} \/ LET nb == TLCEval([p \in N |-> {q \in N : {p, q} \in E}])
              IN Component(nb, CHOOSE p \in N : TRUE) = N
=============================================================================
