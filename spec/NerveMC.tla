------------------------------ MODULE NerveMC ------------------------------
(***************************************************************************)
(* Points enter the sets of a cover one at a time.  A point that enters    *)
(* set i brings in the simplices spanned by i and the sets that already    *)
(* contain it; the state is the nerve throughout.  The Dowker value of an  *)
(* edge with 0/1 distances agrees with the nerve.                          *)
(***************************************************************************)
EXTENDS Flag
CONSTANTS NS, NX, D
VARIABLES c, cells
Init == c = [i \in 1..NS |-> {}] /\ cells = {{i} : i \in 0..(NS - 1)}
Next == \E i \in 1..NS, x \in 1..NX :
          /\ x \notin c[i]
          /\ c' = [c EXCEPT ![i] = @ \cup {x}]
          /\ LET K == {j - 1 : j \in {j \in 1..NS : x \in c[j]}}
             IN  cells' = cells \cup {T \in {S \cup {i - 1} : S \in SUBSET K} : Cardinality(T) <= D + 1}
Table == [i \in 1..NS |-> [x \in 1..NX |-> IF x \in c[i] THEN 0 ELSE 1]]
Inv == /\ cells = NerveSets(c, D)
       /\ D >= 1 => {e \in cells : Cardinality(e) = 2} = {e \in Pairs(NS) : DowkerW(Table)[e] = 0}
       /\ NerveSets(c, D) \subseteq Cliques(NS, {e \in NerveSets(c, 1) : Cardinality(e) = 2}, D)
=============================================================================
