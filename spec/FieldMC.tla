------------------------------ MODULE FieldMC ------------------------------
(* The specification's own field arithmetic satisfies the field axioms: every triple is a state. *)
EXTENDS LinAlg
VARIABLES p, a, b, c
Q == {RatN(n, d) : n \in -2..2, d \in 1..3}
El(q) == IF q = 0 THEN Q ELSE 0..(q - 1)
Init == /\ p \in {2, 3, 5, 7, 0} /\ a \in El(p) /\ b \in El(p) /\ c \in El(p)
Next == UNCHANGED <<p, a, b, c>>
Laws == /\ FAdd(p, a, b) = FAdd(p, b, a) /\ FMul(p, a, b) = FMul(p, b, a)
        /\ FAdd(p, a, FAdd(p, b, c)) = FAdd(p, FAdd(p, a, b), c)
        /\ FMul(p, a, FMul(p, b, c)) = FMul(p, FMul(p, a, b), c)
        /\ FMul(p, a, FAdd(p, b, c)) = FAdd(p, FMul(p, a, b), FMul(p, a, c))
        /\ FAdd(p, a, FZero(p)) = a /\ FMul(p, a, FOne(p)) = a /\ FAdd(p, a, FNeg(p, a)) = FZero(p)
        /\ a # FZero(p) => FMul(p, a, FInv(p, a)) = FOne(p) /\ FIsElem(p, FInv(p, a))
        /\ FIsElem(p, FAdd(p, a, b)) /\ FIsElem(p, FMul(p, a, b)) /\ FIsElem(p, FNeg(p, a))
=============================================================================
