------------------------------- MODULE HomMC -------------------------------
(* Every filtered subcomplex of a small simplicial complex, every admissible order of its cells and every update from one filtration
   to another: the pairing of the ordered complex is the barcode (it counts all persistent ranks), its Betti numbers satisfy
   Euler-Poincare, and the pairing is invariant under reorderings that keep the values. *)
EXTENDS Homology
CONSTANTS P, NV, MaxVal
VARIABLES val, perm, cells
vars == <<val, perm, cells>>
Verts == 0..(NV - 1)
AllS == {SetToSortSeq(T, <) : T \in (SUBSET Verts) \ {{}}}
Closed(K) == \A s \in K : Len(s) > 1 => SFaces(s) \subseteq K
Lex(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Listing(K) == TLCEval([k \in 1..3 |-> SetToSortSeq({s \in K : Len(s) = k}, Lex)])
Bd(c) == TLCEval([k \in 1..3 |-> SimplexBd(P, c, k - 1)])
Sorted(v) == [k \in DOMAIN v |-> LET S == 1..Len(v[k]) IN [i \in S |-> SetToSortSeq(S, LAMBDA a, b : v[k][a] < v[k][b] \/ (v[k][a] = v[k][b] /\ a < b))[i] - 1]]
Mono(c, f) == LET idx == [k \in 1..3 |-> IndexOf(c[k])] IN
              \A k \in 2..3 : \A j \in DOMAIN c[k] : \A s \in SFaces(c[k][j]) : f[k - 1][idx[k - 1][s] + 1] <= f[k][j]
Assign(c) == {f \in [1..3 -> UNION {[1..n -> 0..MaxVal] : n \in {Len(c[k]) : k \in 1..3}}] : (\A k \in 1..3 : Len(f[k]) = Len(c[k])) /\ Mono(c, f)}
Init == \E K \in SUBSET {s \in AllS : Len(s) <= 3} :
            /\ K # {} /\ Closed(K) /\ cells = Listing(K)
            /\ val \in Assign(cells) /\ perm = Sorted(val)
Update == /\ val' \in Assign(cells) /\ perm' = Sorted(val') /\ UNCHANGED cells
SwapTie == \E k \in 1..3 : \E i \in 1..(Len(perm[k]) - 1) :
             /\ val[k][perm[k][i] + 1] = val[k][perm[k][i + 1] + 1]
             /\ perm' = [perm EXCEPT ![k][i] = perm[k][i + 1], ![k][i + 1] = perm[k][i]]
             /\ UNCHANGED <<val, cells>>
Next == Update \/ SwapTie
Inv == LET D == Bd(cells) DP == Reorder(D, perm) PR == Pairing(P, DP) rk == Ranks(P, D) IN
       /\ IsComplex(P, D) /\ Monotone(D, val) /\ IsOrder(perm, D, val)
       /\ \A k \in 0..2 : LET B == SetToSeq(BarsAt(D, PR, k))
                              bars == [i \in DOMAIN B |-> BarVal(val, k, Deperm(perm, k, B[i]))]
                          IN /\ RankRight(P, D, val, k, bars)
                             /\ Cardinality({i \in DOMAIN B : B[i][2] = NoInd}) = Betti(rk, D, k)
       /\ Euler(D) = Betti(rk, D, 0) - Betti(rk, D, 1) + Betti(rk, D, 2)
=============================================================================
