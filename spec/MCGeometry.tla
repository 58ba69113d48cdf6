---------------------------- MODULE MCGeometry ----------------------------
(***************************************************************************)
(* Exhaustive check of the laws of the coordinate system, and of the cell  *)
(* list lookup being equal to a search through all positions.              *)
(***************************************************************************)
EXTENDS Geometry
CONSTANTS Sizes, NegLos, MaxOut, Cuts2, Dims, Cap, Img
VARIABLES box, a, b, t, cut2, ready

vars == <<box, a, b, t, cut2, ready>>

Coord(bx, k) == (bx.lo[k] - MaxOut)..(bx.hi[k] + MaxOut)

\* first choose the box, then the positions: spreads the work over workers
Init ==
    /\ ready = FALSE
    /\ \E d \in Dims, p \in BOOLEAN :
          \E nl \in [1..d -> NegLos], sz \in [1..d -> Sizes] :
             box = [lo |-> [k \in 1..d |-> -nl[k]], hi |-> [k \in 1..d |-> sz[k] - nl[k]], per |-> p]
    /\ a = box.lo /\ b = box.lo /\ t = 0 /\ cut2 = 0

Next ==
    /\ ~ready
    /\ ready' = TRUE
    /\ \E u, v \in [DOMAIN box.lo -> UNION {Coord(box, k) : k \in DOMAIN box.lo}] :
          /\ \A k \in DOMAIN box.lo : u[k] \in Coord(box, k) /\ v[k] \in Coord(box, k)
          /\ a' = u /\ b' = v
    /\ t' \in {-1, 2}
    /\ cut2' \in Cuts2
    /\ UNCHANGED box

Spec == Init /\ [][Next]_vars

Shift(x) == [k \in DOMAIN x |-> x[k] + t]
Image(x, m) == [k \in DOMAIN x |-> x[k] + m * Size(box, k)]

LawSymmetric == Dist2(box, a, b) = Dist2(box, b, a)
LawZero == (Dist2(box, a, b) = 0) <=> Equivalent(box, a, b)
LawShift == Dist2(box, Shift(a), Shift(b)) = Dist2(box, a, b)
LawImages ==
    box.per => /\ Dist2(box, Image(a, 1), b) = Dist2(box, a, b)
               /\ Dist2(box, a, Image(b, -2)) = Dist2(box, a, b)
               \* equal to the shortest distance between images
               /\ \A o \in [DOMAIN a -> -Img..Img] :
                     Norm2([k \in DOMAIN a |-> b[k] - a[k] + o[k] * Size(box, k)]) >= Dist2(box, a, b)
               /\ \E o \in [DOMAIN a -> -Img..Img] :
                     Norm2([k \in DOMAIN a |-> b[k] - a[k] + o[k] * Size(box, k)]) = Dist2(box, a, b)
LawNormalize ==
    /\ Equivalent(box, Normalize(box, a), a)
    /\ box.per => InLimits(box, Normalize(box, a))
    /\ Normalize(box, Normalize(box, a)) = Normalize(box, a)
    /\ Equivalent(box, a, b) => Normalize(box, a) = Normalize(box, b)
LawCells ==
    LET n == NumCells(box, cut2, Cap)
    IN CellLookup(box, n, cut2, <<a>>, b) = BruteForce(box, cut2, <<a>>, b)
Laws == ready => (LawSymmetric /\ LawZero /\ LawShift /\ LawImages /\ LawNormalize /\ LawCells)
=============================================================================
