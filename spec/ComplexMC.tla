------------------------------ MODULE ComplexMC ------------------------------
(* Every history of at most N additions (single or recursive) of the cells Pool; prints the histories for replay. *)
EXTENDS Complex, Json
CONSTANTS Kind, NV, N, Emit
VARIABLES X, hist
vars == <<X, hist>>
Amb == IF Kind = "cube" THEN NV ELSE 0
CubeI == {<<0, 0>>, <<1, 1>>, <<0, 1>>}
Pool == IF Kind = "cube" THEN IF NV = 1 THEN CubeI ELSE {a \o b : a \in CubeI, b \in CubeI}
        ELSE {SetToSortSeq(T, <) : T \in (SUBSET (0..(NV - 1))) \ {{}}}
Init == X = New(Kind, Amb) /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E s \in Pool, rec \in BOOLEAN :
             /\ X' = IF rec THEN AddRec(X, s) ELSE Add(X, s)
             /\ hist' = Append(hist, [op |-> IF rec THEN "addrec" ELSE "add", s |-> s])
        /\ (Emit /\ Len(hist') = N) => PrintT(<<"VF_B", ToJson(hist')>>)
Inv == ComplexInv(X) /\ SquareZero(3, X)
\* indices never change and nothing is ever removed
Stable == [][\A k \in 0..(Len(X.cells) - 1) : IsPrefix(Cells(X, k), Cells(X', k))]_vars
AddExact == [][LET h == hist'[Len(hist')] IN
                 IF h.op = "add" THEN AllCells(X') = AllCells(X) \cup (IF FacesOf(X, h.s) \subseteq AllCells(X) THEN {h.s} ELSE {})
                 ELSE IsAddRec(X, h.s, X') /\ AllCells(X') = AllCells(X) \cup Closure(X, h.s)]_vars
=============================================================================
