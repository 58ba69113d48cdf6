---------------------------- MODULE MCNelderMead ----------------------------
(***************************************************************************)
(* The minimization as a transition system: the values of the function are *)
(* chosen when a point is evaluated for the first time.                    *)
(***************************************************************************)
EXTENDS NelderMead, IOUtils

CONSTANTS Values, MaxIter, MaxFev, XTol2, FTol2, N

VARIABLES S, fun, fev, iter, status, what, best0, vol
vars == <<S, fun, fev, iter, status, what, best0, vol>>
\* fun: partial function of points

Opt == [xtol2 |-> XTol2, ftol2 |-> FTol2, maxiter |-> MaxIter, maxfev |-> MaxFev, fp |-> 0, fq |-> 0]
Start == IF N = 1 THEN << <<0>>, <<64>> >> ELSE << <<0, 0>>, <<256, 0>>, <<0, 256>> >>

\* extensions of fun to the points xs
RECURSIVE Extend(_, _)
Extend(f, xs) ==
    IF xs = {} THEN {f}
    ELSE LET x == CHOOSE y \in xs : TRUE
         IN IF x \in DOMAIN f THEN Extend(f, xs \ {x})
            ELSE UNION {Extend(f @@ (x :> v), xs \ {x}) : v \in Values}

SortedVersions(T) ==   \* all sorted permutations
    {U \in {[i \in DOMAIN T |-> T[p[i]]] : p \in {q \in [DOMAIN T -> DOMAIN T] : \A i, j \in DOMAIN T : q[i] = q[j] => i = j}} : Sorted(U)}

Vol(T) == IF N = 1 THEN AbsV(T[2][1][1] - T[1][1][1])
          ELSE AbsV((T[2][1][1] - T[1][1][1]) * (T[3][1][2] - T[1][1][2])
                    - (T[2][1][2] - T[1][1][2]) * (T[3][1][1] - T[1][1][1]))

Init ==
    /\ \E f \in Extend(<<>>, Rng_(Start)) :
          /\ fun = f
          /\ S \in SortedVersions([j \in DOMAIN Start |-> <<Start[j], f[Start[j]]>>])
    /\ fev = Len(Start) /\ iter = 1 /\ status = "run" /\ what = "start"
    /\ best0 = Inf /\ vol = 0

Points == {Reflection(S), Expansion(S), Outside(S), Inside(S)} \cup {Shrunk(S, j) : j \in 2..Len(S)}
\* the log of an iteration: prefixes of the possible sequences of evaluations
Logs(f) ==
    LET val(x) == <<x, f[x]>>
        shr == [j \in 1..NN(S) |-> val(Shrunk(S, j + 1))]
    IN {<<val(Reflection(S)), val(x)>> \o shr : x \in {Expansion(S), Outside(S), Inside(S)}} \cup {<<val(Reflection(S))>>}

Step ==
    /\ status = "run" /\ ~Stop(Opt, S, fev, iter) /\ Exact(S)
    /\ \E f \in Extend(fun, Points) : \E log \in Logs(f) :
          LET r == Iterate(S, log, 1)
          IN /\ r.ok
             /\ \E T \in SortedVersions(r.new) :
                   /\ S' = T
                   \* only evaluated points are remembered
                   /\ fun' = [x \in (DOMAIN fun) \cup {log[i][1] : i \in 1..r.used} |-> f[x]]
                   /\ fev' = fev + r.used
                   /\ what' = r.what
                   /\ best0' = S[1][2] /\ vol' = Vol(S)
    /\ iter' = iter + 1
    /\ UNCHANGED status
Finish ==
    /\ status = "run" /\ Stop(Opt, S, fev, iter)
    /\ status' = ToString(Status(Opt, S, fev, iter))
    /\ UNCHANGED <<S, fun, fev, iter, what, best0, vol>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

SortedInv == Sorted(S)
TrueValues == \A j \in DOMAIN S : S[j][2] = fun[S[j][1]]
BestNeverIncreases == iter = 1 \/ S[1][2] <= best0
\* volume changes by the factors of the rules
VolumeRule ==
    iter = 1 \/
    CASE what = "reflect" -> Vol(S) = vol
      [] what = "expand"  -> Vol(S) = 2 * vol
      [] what \in {"outside", "inside"} -> 2 * Vol(S) = vol
      [] what = "shrink"  -> IF N = 1 THEN 2 * Vol(S) = vol ELSE 4 * Vol(S) = vol
Counts == fev <= MaxFev + N + 1 /\ iter <= MaxIter
SuccessRule ==
    status # "run" =>
       (status = "0" <=> (Converged(Opt, S) /\ fev < MaxFev /\ iter < MaxIter))
\* some iteration always exists (the rules are complete)
NoGap == (status = "run" /\ Exact(S)) => ENABLED Next
=============================================================================
