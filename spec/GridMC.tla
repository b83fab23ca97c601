------------------------------ MODULE GridMC ------------------------------
(* For every closed set of cubes of small boxes: its Freudenthal simplices are closed under faces, every simplex lies in one cube only, and the Euler characteristics agree. *)
EXTENDS Ext
CONSTANT Big
VARIABLES n, X
vars == <<n, X>>
Box == IF Big THEN {<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 2, 2>>} ELSE {<<2, 2>>, <<3, 2>>}
All(b) == BoxCubes([i \in DOMAIN b |-> 0], [i \in DOMAIN b |-> b[i] - 1])
FacesOf(c) == {q \in BoxCubes(Low(c), High(c)) : TRUE}
Closure(S) == UNION {FacesOf(c) : c \in S}
Init == n \in Box /\ X = {}
\* grow by one closed cube at a time
Next == \E c \in All(n) : c \notin X /\ X' = X \cup FacesOf(c) /\ UNCHANGED n
Chi(S, d(_)) == FoldSet(LAMBDA s, acc : acc + (IF d(s) % 2 = 0 THEN 1 ELSE -1), 0, S)
SD(s) == Len(s) - 1
Inv == LET K == TLCEval(Freud(X, n)) IN
    /\ \A s \in K : \A i \in 1..Len(s) : Len(s) > 1 => (SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))) \in K
    /\ Chi(K, SD) = Chi(X, CDim)
    /\ Cardinality(K) = FoldSet(LAMBDA c, acc : acc + Cardinality(Chains(c)), 0, X)
    /\ \A c \in X : Cardinality({S \in Chains(c) : Cardinality(S) = CDim(c) + 1}) = <<1, 1, 2, 6>>[CDim(c) + 1]
=============================================================================
