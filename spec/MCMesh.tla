------------------------------ MODULE MCMesh ------------------------------
(***************************************************************************)
(* Exhaustive check, for small boxes, that the initial mesh as specified   *)
(* in SearchCore covers the box evenly.                                    *)
(***************************************************************************)
EXTENDS SearchCore
VARIABLES conf
\* sizes divisible by all that is needed
Unit(per, m) == 2 * m * (IF per THEN 1 ELSE m - 1)
Confs ==
    {[box |-> [lo |-> lo, hi |-> [k \in DOMAIN lo |-> lo[k] + s[k] * Unit(p, m[k])], per |-> p], mesh |-> m] :
        lo \in [1..1 -> {-3, 0, 5}] , m \in [1..1 -> 2..5], s \in [1..1 -> 1..3], p \in BOOLEAN}
    \cup
    {[box |-> [lo |-> lo, hi |-> [k \in DOMAIN lo |-> lo[k] + s[k] * Unit(p, m[k])], per |-> p], mesh |-> m] :
        lo \in [1..2 -> {-3, 0}] , m \in [1..2 -> 2..4], s \in [1..2 -> 1..2], p \in BOOLEAN}
Init == conf = [none |-> TRUE]
Next == "none" \in DOMAIN conf /\ conf' \in Confs
Spec == Init /\ [][Next]_conf
Ready == "none" \notin DOMAIN conf
Bx == conf.box
Num == LET m == conf.mesh IN IF Len(m) = 1 THEN m[1] ELSE m[1] * m[2]
G == GridPoints(conf)
Step(k) == Size(Bx, k) \div (IF Bx.per THEN conf.mesh[k] ELSE conf.mesh[k] - 1)
CountRight == Ready => Cardinality(G) = Num /\ Cardinality(Mesh(conf)) = Num
Inside == Ready => \A v \in G : InLimits(Bx, v)
LowerIncluded == Ready => Bx.lo \in G
UpperIffOpen == Ready => ((\E v \in G : \E k \in DOMAIN v : v[k] = Bx.hi[k]) <=> ~Bx.per)
Even == Ready => \A v \in G : \A k \in DOMAIN v :
            LET w == [v EXCEPT ![k] = @ + Step(k)]
            IN (w \in G) \/ (IF Bx.per THEN Normalize(Bx, w) \in G ELSE v[k] = Bx.hi[k])
\* each point of the box is at most half a step away from the grid
AllCovered == Ready =>
    \A x \in {[k \in DOMAIN Bx.lo |-> f[k]] : f \in [DOMAIN Bx.lo -> Bx.lo[1]..(Bx.lo[1] + 4)]} :
        InLimits(Bx, x) => \E v \in G : \A k \in DOMAIN v : 2 * AxisDist(Bx, k, x[k] - v[k]) <= Step(k)
NonDegenerate == Ready => \A s \in Mesh(conf) : Cardinality(Values(s)) = Dim(Bx) + 1
=============================================================================
