------------------------------ MODULE SerialMC ------------------------------
(* A file system: files are overwritten by writers and read back; every object of each kind over small bounds. *)
EXTENDS Serial
CONSTANTS P, M, N                 \* field, matrices up to M x N
VARIABLES file, want
vars == <<file, want>>
Elems == IF P = 0 THEN {<<1, 1>>, <<-1, 2>>} ELSE 1..(P - 1)
Vecs(m) == UNION {[S -> Elems] : S \in SUBSET (0..(m - 1))}
Mtx == UNION {UNION {{Mat(m, n, c) : c \in [1..n -> Vecs(m)]} : m \in 0..M} : n \in 0..N}
Verts == 0..2
Cpx == {K \in SUBSET ((SUBSET Verts) \ {{}}) : \A s \in K : SUBSET s \ {{}} \subseteq K}
Cells(K) == TLCEval([k \in 1..3 |-> SetToSeq({SetToSortSeq(s, <) : s \in {s \in K : Cardinality(s) = k}})])
None == [k |-> "none"]
Init == file = [f \in {1, 2} |-> <<>>] /\ want = [f \in {1, 2} |-> None]
Save(f, text, obj) == file' = [file EXCEPT ![f] = text] /\ want' = [want EXCEPT ![f] = obj]
Small == {A \in Mtx : A.m <= 1 /\ A.n <= 1}
Next == \/ \E A \in Mtx : Save(1, WriteMat(A), [k |-> "mat", v |-> A])
        \/ \E A, C \in Small : Save(2, WriteMats(<<<<"CellularMap">>>>, <<A, C>>), [k |-> "map", v |-> <<A, C>>])
        \/ \E K \in Cpx : Save(2, WriteSimp(Cells(K)), [k |-> "simp", v |-> Cells(K)])
\* mathematical text read back
Read(f) == LET w == want[f] IN
    CASE w.k = "none" -> TRUE
      [] w.k = "mat" -> ReadMat(file[f], 1) = [v |-> w.v, next |-> Len(file[f]) + 1]
      [] w.k = "map" -> ReadMats(file[f], 2) = w.v
      [] w.k = "simp" -> ReadSimp(file[f]) = Trim(w.v)
Inv == Read(1) /\ Read(2)
View == want
=============================================================================
