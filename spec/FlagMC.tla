------------------------------- MODULE FlagMC -------------------------------
(***************************************************************************)
(* The incremental construction: edges arrive in any order with            *)
(* non-decreasing values; an edge brings in every clique of its common     *)
(* neighbours together with itself, valued by the edge.  After every edge  *)
(* the state is the flag complex of the graph so far and the value of a    *)
(* simplex is the largest of its edges.                                    *)
(***************************************************************************)
EXTENDS Flag, Json
CONSTANTS N, D, T, Emit        \* vertices, maximum dimension, number of values
VARIABLES E, w, cells, val, hist, now
vars == <<E, w, cells, val, hist, now>>
Nbr(v) == {u \in 0..(N - 1) : {u, v} \in E}
Init == /\ E = {} /\ w = <<>> /\ cells = {{v} : v \in 0..(N - 1)} /\ val = [S \in {{v} : v \in 0..(N - 1)} |-> 0] /\ hist = <<>> /\ now = 1
Next == \E e \in Pairs(N) \ E, t \in now..T :
          LET a == Min(e) b == Max(e)
              new == {e \cup S : S \in {S \in SUBSET (Nbr(a) \cap Nbr(b)) : Clique(E, S) /\ Cardinality(S) + 2 <= (IF D < 1 THEN 0 ELSE D + 1)}}
          IN  /\ E' = E \cup {e} /\ now' = t
              /\ w' = [f \in E \cup {e} |-> IF f = e THEN t ELSE w[f]]
              /\ cells' = cells \cup new
              /\ val' = [S \in cells \cup new |-> IF S \in cells THEN val[S] ELSE t]
              /\ hist' = Append(hist, <<a, b, t>>)
              /\ Emit => PrintT(<<"VF_B", ToJson(hist')>>)
Inv == /\ cells = Cliques(N, E, D)
       /\ \A S \in cells : val[S] = FVal(w, 0, S)
       /\ \A S \in cells : \A v \in S : Cardinality(S) > 1 => S \ {v} \in cells /\ val[S \ {v}] <= val[S]
       /\ cells = Grow(N, E, {{v} : v \in 0..(N - 1)}, D)
View == <<E, w, cells, val, now>>
=============================================================================
