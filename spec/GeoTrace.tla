------------------------------ MODULE GeoTrace ------------------------------
(***************************************************************************)
(* Judges recorded calls of the coordinate system (C13) and of the         *)
(* neighbour queries of the search result container (C12).                 *)
(***************************************************************************)
EXTENDS Geometry, Vectors

\* squared distances below the cutoff, whose square is cut2[1] / cut2[2]
Within(d2, cut2) == d2 * cut2[2] < cut2[1]

NearCount(box, pts, q, cut2, v, ok(_)) ==
    Cardinality({i \in DOMAIN pts :
        /\ Dist2(box, pts[i], q) = v /\ Within(v, cut2) /\ ok(pts[i])})

NbrVerdict(r) ==
    LET box == BoxOf(r.limits, r.per)
        nodes == [i \in DOMAIN r.nodes |-> Normalize(box, r.nodes[i])]
        yes(p) == TRUE
        notAt(p) == p # r.q \/ ~r.exact
        notEq(p) == ~Equivalent(box, p, r.q)
        dists(pts) == {Dist2(box, pts[i], r.q) : i \in DOMAIN pts}
        \* nodes at the query position do not count; images of it may
        okNodes(obs) ==
            /\ \A v \in Range(obs) : v \in dists(nodes)
            /\ \A v \in dists(nodes) \cup Range(obs) :
                  /\ Cnt(obs, v) <= NearCount(box, nodes, r.q, r.cut2, v, notAt)
                  /\ Cnt(obs, v) >= NearCount(box, nodes, r.q, r.cut2, v, notEq)
        okRef(obs) ==
            \A v \in dists(r.refd) \cup Range(obs) :
                Cnt(obs, v) = NearCount(box, r.refd, r.q, r.cut2, v, yes)
    IN  Clause(okNodes(r.nd), "C12", "node_neighbours", <<r.q, r.nd>>)
        \cup Clause(okNodes(r.alld), "C12", "all_neighbours", <<r.q, r.alld>>)
        \cup Clause(okRef(r.rd), "C12", "refined_neighbours", <<r.q, r.rd>>)

CoordVerdict(r) ==
    LET box == BoxOf(r.limits, r.per)
        d == Dist2(box, r.a, r.b)
        n == Normalize(box, r.a)
    IN  Clause(r.lo = box.lo /\ r.hi = box.hi, "C13", "limits", <<r.lo, r.hi>>)
        \cup Clause(r.dim = Dim(box) /\ r.size = [k \in 1..Dim(box) |-> Size(box, k)],
                    "C13", "size", <<r.dim, r.size>>)
        \cup Clause(r.dab = d, "C13", "distance", <<r.dab, d>>)
        \cup Clause(r.dba = d, "C13", "distance_symmetric", <<r.dba, d>>)
        \cup Clause(r.dshift = d, "C13", "distance_shift", <<r.dshift, d>>)
        \cup Clause(box.per => r.dimage = d, "C13", "distance_image", <<r.dimage, d>>)
        \cup Clause(r.darr = [i \in DOMAIN r.arr |-> Dist2(box, r.a, r.arr[i])],
                    "C13", "distance_array", r.darr)
        \cup Clause(IsConnecting(box, r.a, r.b, r.vec), "C13", "connecting_vector", <<r.a, r.b, r.vec>>)
        \cup Clause(\A i \in DOMAIN r.arr : IsConnecting(box, r.a, r.arr[i], r.vecarr[i]),
                    "C13", "connecting_vector_array", r.vecarr)
        \cup Clause(r.frac = FracNum(box, r.a), "C13", "frac", <<r.a, r.frac>>)
        \cup Clause(r.back = n, "C13", "frac_inverse", <<r.a, r.back>>)
        \cup Clause(r.fracpos = r.fracin, "C13", "pos_inverse", <<r.fracin, r.fracpos>>)
        \cup Clause(r.posoff = [k \in 1..Dim(box) |-> box.lo[k] + r.fracin[k]], "C13", "pos", <<r.fracin, r.posoff>>)
        \cup Clause(r.norm = n, "C13", "normalize", <<r.a, r.norm>>)
        \cup Clause(r.normarr = [i \in DOMAIN r.arr |-> Normalize(box, r.arr[i])],
                    "C13", "normalize_array", r.normarr)
        \cup Clause(r.same, "C13", "input_modified", r.a)

Verdict(r) ==
    CASE r.kind = "nbr" -> NbrVerdict(r)
      [] r.kind = "coord" -> CoordVerdict(r)

Judged == AtRecord => Report(Verdict(Trace[pos]))
=============================================================================
