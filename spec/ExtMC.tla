------------------------------ MODULE ExtMC ------------------------------
(***************************************************************************)
(* For every function with values 0..MaxF on N vertices, every radius, and *)
(* every voxel image of a small box: the intervals of a face contain those *)
(* of its cofaces, so every level set is a complex, and wider windows give *)
(* larger level sets.                                                      *)
(***************************************************************************)
EXTENDS Ext
CONSTANTS N, MaxF
VARIABLES f, img, eps
vars == <<f, img, eps>>
View == vars
Simp == {s \in SUBSET (0..(N - 1)) : s # {}}
None == <<>>
Init == \/ f \in [1..N -> 0..MaxF] /\ eps \in 0..MaxF /\ img = None
        \/ f = None /\ eps = 0 /\ \E d \in {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 2>>} : img \in [1..d[1] -> [1..d[2] -> [1..d[3] -> 0..2]]]
Next == UNCHANGED vars
F(v) == f[v + 1]
W(s) == Window(s, F, eps)
Inside(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
FuncOK == /\ \A s \in Simp : \A t \in SUBSET s \ {{}} : Inside(W(s), W(t))
          /\ \A s0 \in 0..MaxF : \A s1 \in s0..MaxF : LET L == {s \in Simp : Good(W(s)) /\ Meets(<<W(s)>>, s0, s1)} IN
                /\ \A s \in L : SUBSET s \ {{}} \subseteq L
                /\ \A s2 \in s1..MaxF : L \subseteq {s \in Simp : Good(W(s)) /\ Meets(<<W(s)>>, s0, s2)}
Face(c, i, a) == [c EXCEPT ![2 * i - 1] = a, ![2 * i] = a]
ImgOK == LET C == TLCEval(BoxCubes(<<0, 0, 0>>, Dims(img))) T == TLCEval([c \in C |-> Toplex(img, c)]) IN
    /\ \A c \in C : \A i \in 1..3 : \A a \in {c[2 * i - 1], c[2 * i]} : Inside(T[c], T[Face(c, i, a)])
    /\ \A c \in C : Good(T[c])
Inv == IF f # None THEN FuncOK ELSE ImgOK
=============================================================================
