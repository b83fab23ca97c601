------------------------------ MODULE PermMC ------------------------------
(* The group laws the utilities are specified by, for every pair of permutations of at most N things and every list. *)
EXTENDS Perm
CONSTANT N
VARIABLES p, q, x
vars == <<p, q, x>>
Perms(n) == {s \in [1..n -> 0..(n - 1)] : IsPerm(s)}
Init == \E n \in 0..N : p \in Perms(n) /\ q \in Perms(n) /\ x \in [1..n -> 1..2]
Next == UNCHANGED vars
Laws == LET n == Len(p) id == Idn(n) IN
    /\ Compose(p, Inv(p)) = id /\ Compose(Inv(p), p) = id /\ Inv(Inv(p)) = p
    /\ Ap(Ap(x, p), q) = Ap(x, Compose(p, q)) /\ Scatter(Ap(x, p), p) = x /\ Ap(Scatter(x, p), p) = x /\ Scatter(x, p) = Ap(x, Inv(p))
    /\ Sign(Compose(p, q)) = Sign(p) * Sign(q) /\ Inversions(Inv(p)) = Inversions(p)
    /\ KTau(p, id) = Inversions(p) /\ KTau(p, q) = KTau(q, p) /\ (KTau(p, q) = 0) = (p = q)
    /\ KTau(p, q) = Inversions(Compose(Inv(q), p))
    /\ KTau(p, q) <= KTau(p, id) + KTau(id, q)
    /\ Cardinality({s \in Perms(n) : StablySorts(x, s)}) = 1
    /\ \A s \in Perms(n) : StablySorts(x, s) => Ap(x, s) = Sorted(x)
    /\ SumReduce(x, p) = SumReduce(Ap(x, q), Ap(p, q))
=============================================================================
