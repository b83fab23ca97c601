--------------------------- MODULE ReductionTrace ---------------------------
EXTENDS Reduction, Trace0
VARIABLES A, R, U, pairs          \* input; current reduced matrix and basis; pivot map of the input
rvars == <<A, R, U, pairs>>
p == Hdr.p
Big == Hdr.big = 1                \* large inputs: compare pairs, skip the prefix-span sweep
E0 == MZero(0, 0)
TraceInit == TInit /\ A = E0 /\ R = E0 /\ U = E0 /\ pairs = <<>>
HasU(r) == "U" \in DOMAIN r
WellFormed(r) == MCanon(p, r.R) /\ (HasU(r) => MCanon(p, r.U))
Load(r) == R' = MOf(r.R) /\ U' = (IF HasU(r) THEN MOf(r.U) ELSE E0)
Spans(r) == IF HasU(r) THEN Factors(p, A, R', U') ELSE IF Big THEN TRUE ELSE SameSpans(p, A, R')
Result(r) == /\ WellFormed(r) /\ Load(r) /\ R'.m = A.m /\ R'.n = A.n
             /\ Spans(r)
             /\ IsReduced(R') /\ r.p2c = pairs /\ PivotMap(R') = pairs
             /\ UNCHANGED <<A, pairs>>
PartialOK(r) == /\ WellFormed(r) /\ Load(r) /\ R'.m = A.m /\ R'.n = A.n
                /\ IF HasU(r) THEN Factors(p, A, R', U')
                   ELSE IF Big THEN TRUE ELSE \A j \in 1..A.n : InSpan(p, BasisOf(p, SubSeq(A.c, 1, j)), R'.c[j])
                /\ SeqPairs(p, R') = pairs
                /\ UNCHANGED <<A, pairs>>
Tidied(r) == /\ WellFormed(r) /\ Load(r) /\ Factors(p, A, R', U') /\ IsReduced(R') /\ PivotMap(R') = pairs /\ UNCHANGED <<A, pairs>>
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "input" -> A' = MOf(e.r) /\ MList(A') = e.r /\ e.r = e.A /\ pairs' = SeqPairs(p, A') /\ UNCHANGED <<R, U>>
         [] e.op \in {"reduce", "block", "finish"} -> Result(e.r)
         [] e.op = "partial" -> PartialOK(e.r)
         [] e.op = "sparsify" -> Tidied(e.r)
         [] e.op = "rmcycles" -> Tidied(e.r) /\ R' = R
         [] e.op = "compinds" -> e.r = [j \in 1..R.n |-> IF DOMAIN R.c[j] = {} THEN 0 ELSE 1] /\ UNCHANGED rvars
         [] e.op = "clearinds" -> LET S == {i \in 1..Len(e.p2c) : e.p2c[i] # NoInd} d == SetToSortSeq(S, <)
                                  IN e.r = [k \in DOMAIN d |-> d[k] - 1] /\ UNCHANGED rvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
