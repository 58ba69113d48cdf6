----------------------------- MODULE PlotTrace -----------------------------
(***************************************************************************)
(* Judges recorded plots: paths and marks are what the axes contain, objs  *)
(* what the plotted object consists of.                                    *)
(***************************************************************************)
EXTENDS Plot, Vectors

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* an edge of length zero need not be visible
Visible(segs) == SelectSeq(segs, LAMBDA e : Cardinality(e) = 2)
EdgesOf(o) == [i \in DOMAIN o.edges |-> Range(o.edges[i])]

IdentVerdict(r) ==
    LET edges == Concat([i \in DOMAIN r.objs |-> SelectSeq(EdgesOf(r.objs[i]), LAMBDA e : Drawable(r.cut, e))])
        drawn == Visible(Segments(r.paths))
        must == Concat([i \in DOMAIN r.objs |->
                    IF r.objs[i].shape = "point" THEN <<r.objs[i].at>>
                    ELSE IF r.objs[i].shape = "none" THEN r.objs[i].pos
                    ELSE IF r.objs[i].edges = <<>> THEN r.objs[i].nodes ELSE <<>>])
        \* nodes of lines may be marked, too
        may == UNION {Range(r.objs[i].nodes) : i \in DOMAIN r.objs}
    IN Clause(\A v \in Range(edges) : Count(drawn, v) >= Count(edges, v), "C26", "edge_missing", <<r.about, Range(edges) \ Range(drawn)>>)
       \cup Clause(\A v \in Range(drawn) : Count(drawn, v) <= Count(edges, v), "C26", "edge_too_much", <<r.about, Range(drawn) \ Range(edges)>>)
       \cup Clause(\A v \in Range(must) : Count(r.marks, v) >= Count(must, v), "C26", "mark_missing", <<r.about, Range(must) \ Range(r.marks)>>)
       \cup Clause(\A v \in Range(r.marks) : v \in may \/ Count(r.marks, v) <= Count(must, v), "C26", "mark_too_much", <<r.about, Range(r.marks) \ Range(must)>>)

PointsVerdict(r) ==
    LET nodes == [i \in DOMAIN r.objs |-> <<r.objs[i].pos, r.objs[i].val>>]
        marks == [i \in DOMAIN r.marks |-> <<r.marks[i], r.vals[i]>>]
    IN Clause(SameBag([i \in DOMAIN r.objs |-> r.objs[i].pos], r.marks), "C26", "nodes", <<r.about, Len(r.objs), Len(r.marks)>>)
       \cup Clause(Len(r.marks) # Len(r.vals) \/ SameBag(nodes, marks), "C26", "node_values", r.about)
       \cup Clause(Visible(Segments(r.paths)) = <<>>, "C26", "edge_too_much", r.about)

SimplexVerdict(r) ==
    LET edges == Visible(AllPairs(r.simplices))
        drawn == Visible(Segments(r.paths))
    IN Clause(SameBag(edges, drawn), "C26", "simplex_edges", <<r.about, Len(edges), Len(drawn)>>)
       \cup Clause(SameBag(r.origin, r.marks), "C26", "origin", <<r.about, r.marks>>)

Verdict(r) ==
    Clause(r.ok, "C26", "raised", <<r.about, r.exc>>)
    \cup (IF ~r.ok THEN {}
          ELSE Clause(r.limits = r.shown, "C26", "axis_limits", <<r.about, r.shown>>)
               \cup Clause(r.same, "C26", "object_modified", r.about)
               \cup Clause(r.axisok, "C26", "returned_axes", r.about)
               \cup CASE r.kind = "ident" -> IdentVerdict(r)
                      [] r.kind = "points" -> PointsVerdict(r)
                      [] r.kind = "simplices" -> SimplexVerdict(r))
Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
