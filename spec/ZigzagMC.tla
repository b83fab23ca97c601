------------------------------ MODULE ZigzagMC ------------------------------
(***************************************************************************)
(* All histories of N events over the full complex on NV vertices: one     *)
(* cell enters or leaves at each time; whatever is left leaves at time N.  *)
(* The rank table of every history is that of a sum of intervals whose     *)
(* ends are all events.                                                    *)
(***************************************************************************)
EXTENDS Zigzag, Json
CONSTANTS P, NV, N, Emit
VARIABLES here, hist
Pool == TLCEval({SetToSortSeq(T, <) : T \in (SUBSET (0..(NV - 1))) \ {{}}})
Full == LET X0 == AddAll(New("simp", 0), Pool) IN X0
D == TLCEval([k \in 1..NV |-> SimplexBd(P, Full.cells, k - 1)])
SubF(s) == IF Len(s) = 1 THEN {} ELSE SFaces(s)
Init == here = {} /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E s \in Pool :
             IF s \in here THEN (\A u \in here : s \notin SubF(u)) /\ here' = here \ {s} /\ hist' = Append(hist, <<s, FALSE>>)
             ELSE SubF(s) \subseteq here /\ here' = here \cup {s} /\ hist' = Append(hist, <<s, TRUE>>)
        /\ (Emit /\ Len(hist') = N) => PrintT(<<"VF_B", ToJson(hist')>>)
\* intervals of the history so far
RECURSIVE IvOf(_, _, _)
IvOf(s, j, from) == IF j > Len(hist) THEN IF from < 0 THEN <<>> ELSE <<<<from, Len(hist)>>>>
                    ELSE IF hist[j][1] # s THEN IvOf(s, j + 1, from)
                    ELSE IF hist[j][2] THEN IvOf(s, j + 1, j - 1) ELSE <<<<from, j - 1>>>> \o IvOf(s, j + 1, -1)
Ivl == TLCEval([k \in 1..NV |-> TLCEval([i \in DOMAIN Full.cells[k] |-> IvOf(Full.cells[k][i], 1, -1)])])
Inv == LET v == Ivl ts == Crit(v) IN
       /\ Admissible(D, v)
       /\ Len(hist) = N => \A k \in 0..(NV - 1) :
            LET T == ZTab(P, D, k, v) n == Len(T)
                R(a, b) == IF a < 1 \/ b > n THEN 0 ELSE T[a][b]
            IN  \A a \in 1..n : \A b \in a..n : R(a, b) - R(a - 1, b) - R(a, b + 1) + R(a - 1, b + 1) >= 0
=============================================================================
