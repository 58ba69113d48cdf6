----------------------------- MODULE MeshTrace -----------------------------
(***************************************************************************)
(* Judges recorded initial meshes and refinement stencils.                 *)
(***************************************************************************)
EXTENDS Vectors, SearchCore

RangeOf(s) == {s[i] : i \in DOMAIN s}
\* r.simp: the starting simplices found
MeshVerdict(r) ==
    LET c == [box |-> BoxOf(r.limits, r.per), mesh |-> r.mesh]
        want == TLCEval(Mesh(c))
        got == TLCEval([i \in DOMAIN r.simp |-> SortSimplex(r.simp[i])])
    IN Clause(RangeOf(got) \subseteq want, "C19", "unexpected_simplex", RangeOf(got) \ want)
       \cup Clause(want \subseteq RangeOf(got), "C19", "missing_simplex", want \ RangeOf(got))
       \cup Clause(Len(got) = Cardinality(RangeOf(got)), "C19", "repeated_simplex", Len(got))

\* the mesh stencil: the mesh of the box of half-width r.half without the simplex at the origin
MeshStencilVerdict(r) ==
    LET d == Len(r.mesh)
        c == [box |-> [lo |-> [k \in 1..d |-> -r.half], hi |-> [k \in 1..d |-> r.half], per |-> FALSE], mesh |-> r.mesh]
        origin == [k \in 1..d |-> 0]
        want == TLCEval({MeshSimplex(c, v) : v \in GridPoints(c) \ {origin}})
        got == TLCEval([i \in DOMAIN r.simp |-> SortSimplex(r.simp[i])])
    IN Clause(RangeOf(got) = want, "C27", "mesh_stencil", <<RangeOf(got) \ want, want \ RangeOf(got)>>)
       \cup Clause(Len(got) = Cardinality(want), "C27", "mesh_stencil_number", Len(got))

Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Minus(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Det(m) ==
    IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
    ELSE m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Volume(s) == Abs(Det([i \in 1..(Len(s) - 1) |-> Minus(s[i + 1], s[1])]))
LowerOf(a, b) == a < b
SortInts(s) == SortSeq(s, LowerOf)
\* squared edge lengths, and squared distances of the vertices from the origin, sorted
Pairs(n) == [1..n -> 1..n]
Edges(s) == SortInts([i \in 1..(Len(s) * Len(s)) |->
    LET a == ((i - 1) \div Len(s)) + 1
        b == ((i - 1) % Len(s)) + 1
    IN Norm2(Minus(s[a], s[b]))])
Radii(s) == SortInts([i \in DOMAIN s |-> Norm2(s[i])])
Close(a, b, tol) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
\* a plane through the origin with all vertices on one side (at the start's direction)
Separated(s) == \A i \in DOMAIN s : Dot(s[1], s[i]) > 0
\* r: d, num, S (scale), simp (start first), dirs (directions, of length 100), vmax (largest
\* length of a start), cosn (100 times the least cosine)
Reaches(r, u) == \E i \in DOMAIN r.simp : Dot(u, r.simp[i][1]) >= r.cosn * r.vmax
RoundStencilVerdict(r) ==
    LET s == r.simp
        tol == r.tol
        edges == TLCEval([i \in DOMAIN s |-> TLCEval(Edges(s[i]))])
        radii == TLCEval([i \in DOMAIN s |-> TLCEval(Radii(s[i]))])
    IN Clause(Len(s) = r.num, "C27", "number", Len(s))
       \cup Clause(\A i \in DOMAIN s : Len(s[i]) = r.d + 1 /\ \A j \in DOMAIN s[i] : Len(s[i][j]) = r.d, "C27", "shape", "")
       \cup Clause(\A i \in DOMAIN s : Volume(s[i]) > r.minvol, "C27", "degenerate", "")
       \cup Clause(\A i \in DOMAIN s : Close(edges[i], edges[1], tol) /\ Close(radii[i], radii[1], tol), "C27", "not_congruent", "")
       \cup Clause(\A i \in DOMAIN s : Separated(s[i]), "C27", "contains_origin", "")
       \cup Clause(\A i \in DOMAIN s : \A j \in DOMAIN s[i] : Norm2(s[i][j]) > r.S * r.S, "C27", "inside_unit_sphere", "")
       \cup Clause(\A k \in DOMAIN r.dirs : Reaches(r, r.dirs[k]), "C27", "directions", "")

Verdict(r) ==
    CASE r.kind = "mesh" -> MeshVerdict(r)
      [] r.kind = "stencil" -> MeshStencilVerdict(r)
      [] r.kind = "round" -> RoundStencilVerdict(r)
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
