------------------------------ MODULE FunctorMC ------------------------------
(***************************************************************************)
(* Applying a functor to a diagram with W workers.  The nodes are done in  *)
(* one parallel loop, then (all workers having passed the barrier) the     *)
(* edges in another; an edge reads the results at both of its ends.  In    *)
(* the one-pass form an edge computes both of its ends privately and the   *)
(* results at the nodes are written afterwards, sequentially.              *)
(* A loop hands every index to exactly one worker, in any order.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS W, N, M, OnePass
VARIABLES es, todo, work, node, edge, phase, next
vars == <<es, todo, work, node, edge, phase, next>>
Unset == 0
Val(i) == i + 100                      \* the functor on nodes (any injective function)
EVal(a, b) == <<a, b>>
Nodes == 1..N
Edges == 1..M
Init == /\ es \in [Edges -> Nodes \X Nodes]
        /\ node = [i \in Nodes |-> Unset] /\ edge = [j \in Edges |-> <<Unset, Unset>>]
        /\ phase = (IF OnePass THEN "edges" ELSE "nodes") /\ todo = (IF OnePass THEN Edges ELSE Nodes)
        /\ work = [w \in 1..W |-> 0] /\ next = 1
Take(w) == /\ phase \in {"nodes", "edges"} /\ work[w] = 0 /\ \E i \in todo : work' = [work EXCEPT ![w] = i] /\ todo' = todo \ {i}
           /\ UNCHANGED <<es, node, edge, phase, next>>
Finish(w) == /\ work[w] # 0 /\ work' = [work EXCEPT ![w] = 0]
             /\ IF phase = "nodes" THEN node' = [node EXCEPT ![work[w]] = Val(work[w])] /\ UNCHANGED edge
                ELSE /\ edge' = [edge EXCEPT ![work[w]] = IF OnePass THEN EVal(Val(es[work[w]][1]), Val(es[work[w]][2])) ELSE EVal(node[es[work[w]][1]], node[es[work[w]][2]])]
                     /\ UNCHANGED node
             /\ UNCHANGED <<es, todo, phase, next>>
Idle == todo = {} /\ \A w \in 1..W : work[w] = 0
Barrier == /\ Idle /\ phase \in {"nodes", "edges"}
           /\ IF phase = "nodes" THEN phase' = "edges" /\ todo' = Edges ELSE phase' = (IF OnePass THEN "write" ELSE "done") /\ todo' = {}
           /\ UNCHANGED <<es, work, node, edge, next>>
\* the sequential loop: first the ends of the edges, then the nodes that no edge touches
Write == /\ phase = "write" /\ IF next <= M THEN node' = [node EXCEPT ![es[next][1]] = edge[next][1], ![es[next][2]] = edge[next][2]] /\ next' = next + 1 /\ UNCHANGED phase
                               ELSE node' = [i \in Nodes |-> IF \E j \in Edges : i \in {es[j][1], es[j][2]} THEN node[i] ELSE Val(i)] /\ phase' = "done" /\ UNCHANGED next
         /\ UNCHANGED <<es, todo, work, edge>>
Next == Barrier \/ Write \/ \E w \in 1..W : Take(w) \/ Finish(w)
\* no two workers hold the same index, so no two write the same place
Disjoint == \A v, w \in 1..W : v # w /\ work[v] # 0 => work[v] # work[w]
\* an edge never reads a node that is not finished
Ready == phase = "edges" /\ ~OnePass => \A i \in Nodes : node[i] = Val(i)
\* whatever the schedule, the result is the functor
Result == phase = "done" => /\ \A i \in Nodes : node[i] = Val(i)
                            /\ \A j \in Edges : edge[j] = EVal(Val(es[j][1]), Val(es[j][2]))
Live == phase = "done" \/ ENABLED Next
Inv == Disjoint /\ Ready /\ Result /\ Live
=============================================================================
