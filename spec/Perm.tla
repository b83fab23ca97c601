------------------------------- MODULE Perm -------------------------------
(***************************************************************************)
(* Permutations, sorted lists and prefix trees.  A permutation of n things *)
(* is a sequence of length n with values 0..n-1 (the implementation counts *)
(* from 0); a list is a sequence of integers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
IsPerm(p) == Rng(p) = 0..(Len(p) - 1)
Idn(n) == TLCEval([i \in 1..n |-> i - 1])
\* the list x taken in the order p
Ap(x, p) == TLCEval([i \in 1..Len(p) |-> x[p[i] + 1]])
\* the list whose entry at p[i] is x[i]
Scatter(x, p) == TLCEval([j \in 1..Len(p) |-> x[CHOOSE i \in DOMAIN p : p[i] = j - 1]])
Inv(p) == Scatter(Idn(Len(p)), p)
NonDecr(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
Incr(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
SortsUp(x, p) == Len(p) = Len(x) /\ IsPerm(p) /\ NonDecr(Ap(x, p))
SortsDown(x, p) == SortsUp([i \in DOMAIN x |-> -x[i]], p)
StablySorts(x, p) == SortsUp(x, p) /\ \A i \in 1..(Len(p) - 1) : x[p[i] + 1] = x[p[i + 1] + 1] => p[i] < p[i + 1]
Sorted(x) == SortSeq(x, <)
SetSeq(S) == SetToSortSeq(S, <)
Inversions(x) == LET n == Len(x) IN FoldFunctionOnSet(+, 0, [i \in 1..n |-> Cardinality({j \in (i + 1)..n : x[i] > x[j]})], 1..n)
Sign(x) == IF Inversions(x) % 2 = 0 THEN 1 ELSE -1
\* pairs of things listed in different orders by p and q
KTau(p, q) == LET a == Inv(p) b == Inv(q) IN Cardinality({<<i, j>> \in (1..Len(p)) \X (1..Len(p)) : i < j /\ ((a[i] < a[j]) # (b[i] < b[j]))})
Compose(p, q) == Ap(p, q)                        \* i |-> p[q[i]]
\* the k smallest entries, as positions, in order / in any order
FirstK(x, k, r) == Len(r) = k /\ Cardinality(Rng(r)) = k /\ Rng(r) \subseteq 0..(Len(x) - 1) /\ Ap(x, r) = SubSeq(Sorted(x), 1, k)
TopK(x, k, r) == Len(r) = k /\ Cardinality(Rng(r)) = k /\ Rng(r) \subseteq 0..(Len(x) - 1) /\ Sorted(Ap(x, r)) = SubSeq(Sorted(x), 1, k)
\* sums of the values at equal indices, zero sums dropped, in index order
SumReduce(ind, val) ==
    LET Sm(i) == FoldFunctionOnSet(+, 0, val, {k \in DOMAIN ind : ind[k] = i})
        S == {i \in Rng(ind) : Sm(i) # 0} s == TLCEval(SetSeq(S))
    IN <<s, TLCEval([k \in 1..Len(s) |-> Sm(s[k])])>>
\* ------------------------------------------------ prefix trees: key -> value, closed under prefixes
Root == (<<>> :> 0)
Heads(k) == {SubSeq(k, 1, n) : n \in 0..Len(k)}
TInsert(t, k, v) == TLCEval([x \in DOMAIN t \cup Heads(k) |-> IF x = k THEN v ELSE IF x \in DOMAIN t THEN t[x] ELSE 0])
TCount(t, k) == IF k \in DOMAIN t THEN 1 ELSE 0
TGet(t, k, d) == IF k \in DOMAIN t THEN t[k] ELSE d
=============================================================================
