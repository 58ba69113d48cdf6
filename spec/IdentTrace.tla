----------------------------- MODULE IdentTrace -----------------------------
(***************************************************************************)
(* Judges recorded identifications.  A record has the box, the feature     *)
(* size f, the given positions pts, the method and the identified objects; *)
(* exact tells if ranks and volumes can be computed (small coordinates);   *)
(* label, if not 4, is the dimension of an evenly filled object which makes *)
(* up all positions.  Dimension 4 stands for None.                         *)
(***************************************************************************)
EXTENDS Identify, Vectors

\* places: what counts as the same position (images of it, or only itself)
ClusterVerdict(box, f, P, objs, p, images) ==
    LET cl == TLCEval(Clusters(box, f, P))
        place(x) == IF images THEN Normalize(box, x) ELSE x
        got == {{place(objs[i].pos[j]) : j \in DOMAIN objs[i].pos} : i \in DOMAIN objs}
    IN Clause(UNION got \subseteq P, p, "foreign_position", UNION got \ P)
       \cup Clause(P \subseteq UNION got, p, "position_lost", P \ UNION got)
       \cup Clause(\A i \in DOMAIN objs : (images \/ Cardinality(Range(objs[i].pos)) = Len(objs[i].pos)) /\ Len(objs[i].pos) > 0, p, "repeated_position", Len(objs))
       \cup Clause(Cardinality(got) = Len(objs) /\ got = cl, p, "components", <<Len(objs), Cardinality(cl)>>)

VecsOf(box, f, Q) == [q \in Q |-> [x \in Nbrs(box, f, Q, q) |-> Vec(box, q, x)]]
LocalDimsOf(box, f, Q) ==
    LET vecs == TLCEval(VecsOf(box, f, Q)) IN TLCEval([q \in Q |-> LocalDims(vecs[q], f, Dim(box))])

DimVerdict(box, f, r, o) ==
    LET Q == Range(o.pos)
        space == Dim(box)
        vecs == TLCEval(VecsOf(box, f, Q))
        loc == TLCEval(LocalDimsOf(box, f, Q))
    IN Clause(o.dim \in 0..4 /\ (o.dim = 4 \/ o.dim <= Min2(3, space)), "C22", "dimension_of_space", o.dim)
       \cup Clause(Cardinality(Q) > 1 \/ o.dim = 0, "C22", "isolated_position", o.dim)
       \cup (IF r.label = 4 THEN {} ELSE Clause(o.dim = r.label, "C22", "evenly_filled", <<r.label, o.dim, r.about>>))
       \cup (IF ~r.exact THEN {}
             ELSE Clause(o.dim = 4 \/ \E q \in Q : o.dim <= Rank({vecs[q][x] : x \in DOMAIN vecs[q]}), "C22", "affine_dimension", <<o.dim, o.pos>>)
                  \cup Clause(o.dim \in DimReports(loc), "C22", "dimension", <<o.dim, DimReports(loc), Q>>)
                  \cup Clause((\A q1, q2 \in Q : 25 * Dist2(box, q1, q2) < f * f) => o.dim = 0, "C22", "small_object", o.dim))

PointVerdict(box, o) ==
    LET Q == Range(o.pos)
    IN Clause(o.shape = "point", "C24", "no_point", o.shape)
       \cup (IF o.shape # "point" THEN {}
             ELSE Clause(IsAverage(box, Q, o.avg), "C24", "average", <<Q, o.avg>>)
                  \cup Clause(~box.per \/ AvgInLimits(box, Cardinality(Q), o.avg), "C24", "outside_of_limits", <<o.avg, Cardinality(Q)>>))

LineVerdict(box, f, r, o) ==
    IF o.shape # "line" THEN {<<"C23", "no_line", ToString(<<r.method, o.shape>>)>>}
    ELSE LET Q == Range(o.pos)
             N == Range(o.nodes)
             E == {Range(o.edges[i]) : i \in DOMAIN o.edges}
             dc == TLCEval(DegreeCount(N, E))
         IN Clause(N \subseteq Q, "C23", "foreign_node", N \ Q)
            \cup Clause(\A e \in E : e \subseteq N /\ Cardinality(e) = 2, "C23", "edge_ends", r.method)
            \cup Clause(\A e \in E : \A a, b \in e : Linked(box, f, a, b), "C23", "long_edge", {e \in E : \E a, b \in e : ~Linked(box, f, a, b)})
            \cup Clause(\A q \in Q : \E n \in N : Linked(box, f, q, n), "C23", "position_not_covered", <<r.method, {q \in Q : \A n \in N : ~Linked(box, f, q, n)}>>)
            \cup Clause(r.method \notin {"shortest_path", "dominating_set"} \/ Connected(N, E), "C23", "disconnected", r.method)
            \cup Clause(Range(o.deg) = dc /\ Cardinality(Range(o.deg)) = Len(o.deg), "C23", "degree_count", <<o.deg, dc>>)
            \cup Clause(o.name = ShapeName(dc), "C23", "shape_name", <<o.name, dc>>)

ShapeVerdict(box, f, r, o) ==
    CASE o.dim = 0 -> PointVerdict(box, o)
      [] o.dim = 1 -> LineVerdict(box, f, r, o)
      [] OTHER -> Clause(o.shape = "none", "C24", "unexpected_shape", <<o.dim, o.shape>>)

IdentVerdict(r) ==
    LET box == BoxOf(r.limits, r.per)
        P == Range(r.pts)
        objs == r.objs
        well == \A i \in DOMAIN objs : Range(objs[i].pos) \subseteq P
    IN ClusterVerdict(box, r.f, P, objs, "C21", FALSE)
       \cup Clause(r.label = 4 \/ Len(objs) = 1, "C21", "evenly_filled_one_object", Len(objs))
       \cup (IF ~well THEN {}
             ELSE UNION {DimVerdict(box, r.f, r, objs[i]) \cup ShapeVerdict(box, r.f, r, objs[i]) : i \in DOMAIN objs})

\* identify.run: on search results and states (kind "run"); objs is its result,
\* others that of run_from_positions for the positions of the nodes
SameObjects(box, r) ==
    LET mine == r.objs
        others == r.others
    IN /\ {Range(mine[i].pos) : i \in DOMAIN mine} = {Range(others[i].pos) : i \in DOMAIN others}
       /\ \A i \in DOMAIN mine, j \in DOMAIN others :
             LET Q == Range(mine[i].pos)
             IN Range(others[j].pos) = Q =>
                   \* dimensions which do not depend on random choices
                   ((Cardinality(Q) = 1 \/ (r.exact /\ Cardinality(DimReports(LocalDimsOf(box, r.f, Q))) = 1)) =>
                        mine[i].dim = others[j].dim /\ mine[i].shape = others[j].shape)
RunVerdict(r) ==
    LET box == BoxOf(r.limits, r.per)
        P == {Normalize(box, r.results[i].pos) : i \in {j \in DOMAIN r.results : r.results[j].ok /\ r.results[j].val <= r.thr}}
    IN Clause(r.ok, "C25", "raised", <<r.source, r.exc>>)
       \cup (IF ~r.ok THEN {}
             ELSE Clause(r.f3 = r.f, "C25", "feature_size", <<r.f3, r.f>>)
                  \cup Clause(r.csys = [limits |-> <<box.lo, box.hi>>, per |-> box.per], "C25", "coordinate_system", r.csys)
                  \cup Clause(r.same, "C25", "input_modified", r.source)
                  \cup ClusterVerdict(box, r.f, P, r.objs, "C25", TRUE)
                  \cup Clause(SameObjects(box, r), "C25", "run_from_positions", r.source))

Verdict(r) == CASE r.kind = "ident" -> IdentVerdict(r) [] r.kind = "run" -> RunVerdict(r)
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
