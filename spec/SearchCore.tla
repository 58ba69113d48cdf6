----------------------------- MODULE SearchCore -----------------------------
(***************************************************************************)
(* The decisions taken by the search: which starting simplices exist, when *)
(* one may or must be left out, when a position is refined, and what a     *)
(* refinement launches.  Shared by the design (NodeSearch) and the monitor *)
(* of recorded searches (SearchTrace).                                     *)
(*                                                                         *)
(* c is the configuration: box, feature (the feature size; the cutoff is a *)
(* third of it), mesh, stencil and sden (the stencil's coordinates are     *)
(* stencil / sden), hasStencil, check (simplex_check_cutoff), recheck      *)
(* (recheck_count_cutoff), doRecheck, par.                                 *)
(* Simplices are lexicographically sorted sequences of vertices.           *)
(***************************************************************************)
EXTENDS Geometry

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, k) ==
    IF k > Len(a) THEN FALSE
    ELSE \/ a[k] < b[k]
         \/ a[k] = b[k] /\ LexFrom(a, b, k + 1)
LexLess(a, b) == LexFrom(a, b, 1)
SortSimplex(s) == SortSeq(s, LexLess)

\* d2 < (feature / 3)^2
NearD2(c, d2) == 9 * d2 < c.feature * c.feature
\* (large distances are not squared)
Near(c, p, q) ==
    /\ \A k \in DOMAIN p : 3 * AxisDist(c.box, k, q[k] - p[k]) <= c.feature
    /\ NearD2(c, Dist2(c.box, p, q))

Values(s) == {s[i] : i \in DOMAIN s}

(* ----------------------------- initial mesh ---------------------------- *)
GridCoord(c, k, i) ==
    LET m == c.mesh[k]
        cells == IF c.box.per THEN m ELSE m - 1
    IN IF i = 0 THEN c.box.lo[k] ELSE c.box.lo[k] + (i * Size(c.box, k)) \div cells
GridPoints(c) ==
    {[k \in DOMAIN c.mesh |-> GridCoord(c, k, f[k])] :
        f \in {g \in [DOMAIN c.mesh -> 0..(CHOOSE x \in Values(c.mesh) : \A y \in Values(c.mesh) : y <= x) - 1] :
                  \A k \in DOMAIN c.mesh : g[k] < c.mesh[k]}}
MeshSimplex(c, v) ==
    SortSimplex([j \in 1..(Dim(c.box) + 1) |->
        [k \in DOMAIN v |->
            IF k = j - 1 THEN v[k] + Size(c.box, k) \div (2 * c.mesh[k]) ELSE v[k]]])
Mesh(c) == {MeshSimplex(c, v) : v \in GridPoints(c)}

(* ----------------------------- refinement ------------------------------ *)
LaunchOne(c, q, simplex) ==
    SortSimplex([j \in DOMAIN simplex |->
        [k \in DOMAIN q |-> q[k] + (c.feature * simplex[j][k]) \div (3 * c.sden)]])
Launch(c, q) == {LaunchOne(c, q, c.stencil[i]) : i \in DOMAIN c.stencil}

\* refd: set of refined positions
RefCount(c, refd, q) == Cardinality({p \in refd : Near(c, p, q)})
Covered(c, refd, q) == \E p \in refd : Near(c, p, q)
MayRefine(c, refd, q) == ~c.doRecheck \/ RefCount(c, refd, q) <= c.recheck

(* -------------------- leaving out starting simplices ------------------- *)
\* Nodes at a vertex itself do not make the vertex count, images of it may.
CountLo(c, nodes, s) ==
    Cardinality({j \in DOMAIN s :
        \E n \in nodes : Near(c, n, s[j]) /\ ~Equivalent(c.box, n, s[j])})
CountHi(c, nodes, s) ==
    Cardinality({j \in DOMAIN s : \E n \in nodes : Near(c, n, s[j])})
CountExact(c, nodes, s) ==
    Cardinality({j \in DOMAIN s : \E n \in nodes : n # s[j] /\ Near(c, n, s[j])})
MustSkip(c, nodes, s) == CountLo(c, nodes, s) > c.check
MaySkip(c, nodes, s) == CountHi(c, nodes, s) > c.check
Skips(c, nodes, s) == CountExact(c, nodes, s) > c.check

(* ---------------------- order of several refinements ------------------- *)
\* Can the positions new be refined one after the other, given refd before?
\* (The last one may not see too many others; removing it only helps.)
RECURSIVE Refinable(_, _, _)
Refinable(c, refd, new) ==
    LET last == {q \in new : MayRefine(c, refd \cup (new \ {q}), q)}
    IN  \/ new = {}
        \/ /\ last # {}
           /\ Refinable(c, refd, new \ {CHOOSE q \in last : TRUE})
=============================================================================
