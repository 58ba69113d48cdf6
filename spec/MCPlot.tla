------------------------------- MODULE MCPlot -------------------------------
(***************************************************************************)
(* Drawing a graph in paths: a path starts at any node which has edges     *)
(* left, follows any edge left (which is then removed), starts anew at     *)
(* the far end of an edge which is too long, and ends at a node without    *)
(* edges.  For all graphs on the given positions.                          *)
(***************************************************************************)
EXTENDS Plot
CONSTANTS Size, Cut, KeepEdge   \* KeepEdge: (broken) long edges are not removed

Places == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<3, 0>>, <<3, 3>>}
Nodes == {p \in Places : p[1] + p[2] <= Size}
AllEdges == {e \in SUBSET Nodes : Cardinality(e) = 2}
VARIABLES graph, left, paths, path, at
vars == <<graph, left, paths, path, at>>
none == <<>>
Init == graph \in SUBSET AllEdges /\ left = graph /\ paths = <<>> /\ path = <<>> /\ at = none
Start == /\ at = none /\ left # {}
         /\ \E p \in UNION left : at' = p /\ path' = <<p>>
         /\ UNCHANGED <<graph, left, paths>>
Follow == /\ at # none
          /\ \E e \in left : /\ at \in e
                             /\ LET q == CHOOSE x \in e : x # at
                                IN /\ at' = q
                                   /\ IF Drawable(Cut, e)
                                      THEN path' = Append(path, q) /\ paths' = paths /\ left' = left \ {e}
                                      ELSE path' = <<q>> /\ paths' = Append(paths, path) /\ left' = IF KeepEdge THEN left ELSE left \ {e}
          /\ UNCHANGED graph
Finish == /\ at # none /\ \A e \in left : at \notin e
          /\ paths' = Append(paths, path) /\ path' = <<>> /\ at' = none
          /\ UNCHANGED <<graph, left>>
Next == Start \/ Follow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Drawn == Segments(Append(paths, path))
OnlyEdges == \A i \in DOMAIN Drawn : Drawn[i] \in graph /\ Drawable(Cut, Drawn[i])
AtMostOnce == \A i, j \in DOMAIN Drawn : Drawn[i] = Drawn[j] => i = j
AllDrawn == (at = none /\ left = {}) => {e \in graph : Drawable(Cut, e)} = {Drawn[i] : i \in DOMAIN Drawn}
Ends == <>(at = none /\ left = {})
=============================================================================
