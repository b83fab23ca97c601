------------------------------- MODULE VecGen -------------------------------
(***************************************************************************)
(* Enumerates every behaviour "set two vectors, apply one operation, query" *)
(* of the register machine over F_P with indices 0..L-1 and prints it as a  *)
(* call history to be replayed on the real code.                            *)
(***************************************************************************)
EXTENDS Algebra, Json
CONSTANTS P, L
VARIABLES hist
vars == <<p, fr, vr, mr, hist>>
Idx == 0..(L - 1)
Vecs == {VRestrict(x, {i \in Idx : x[i] # 0}) : x \in [Idx -> 0..(P - 1)]}
Sub == {VList([i \in S |-> 1]) : S \in SUBSET Idx}
SetOp(k, x) == [op |-> "vset", d |-> k, v |-> VList(x)]
IdxSeqs == {<<>>} \cup {<<i>> : i \in 0..L} \cup {<<i, j>> : i \in 0..L, j \in 0..L}
Incr(s) == Len(s) < 2 \/ s[1] < s[2]
Ops == {[op |-> o, d |-> 0, a |-> a, s |-> 1] : o \in {"vaxpy", "vaxpyt"}, a \in 0..(P - 1)}
  \cup {[op |-> "vaxpyr", d |-> 0, a |-> a, s |-> 1, f |-> i, l |-> j] : a \in 1..(P - 1), i \in 0..L, j \in 0..L}
  \cup {[op |-> "vswap", d |-> 0, i |-> i, j |-> j] : i \in Idx, j \in Idx}
  \cup {[op |-> "verase", d |-> 0, i |-> i] : i \in 0..L}
  \cup {[op |-> "verasefirst", d |-> 0, n |-> i] : i \in 0..L}
  \cup {[op |-> "vinsertz", d |-> 0, ix |-> s] : s \in {t \in IdxSeqs : Incr(t)}}
  \cup {[op |-> "vinsert", d |-> 0, ix |-> s, c |-> [k \in DOMAIN s |-> P - 1]] : s \in {t \in IdxSeqs : Incr(t)}}
  \cup {[op |-> "vmix", d |-> 0, i |-> i, j |-> j, a |-> q[1], b |-> q[2], c |-> q[3], dd |-> q[4]] :
            i \in {0}, j \in {L - 1}, q \in {<<1, 1, 0, 1>>, <<1, 0, 1, 1>>, <<0, 1, 1, 0>>, <<1, P - 1, 1, 1>>, <<0, 0, 0, 0>>}}
  \cup {[op |-> "vmix", d |-> 0, i |-> L - 1, j |-> 0, a |-> q[1], b |-> q[2], c |-> q[3], dd |-> q[4]] :
            q \in {<<1, 1, 0, 1>>, <<1, 0, 1, 1>>, <<0, 1, 1, 0>>, <<0, 0, 0, 0>>}}
  \cup {[op |-> "vadd", d |-> 2, a |-> 0, b |-> 1], [op |-> "vkron", d |-> 2, a |-> 0, b |-> 1, m |-> L]}
Queries == <<[op |-> "vdot", d |-> 0, s |-> 1], [op |-> "vnnzint", d |-> 0, s |-> 1], [op |-> "veq", d |-> 0, s |-> 1], [op |-> "vquery", d |-> 0]>>
Init == /\ AInit(P) /\ hist = <<>>
Next ==
  \/ /\ hist = <<>> /\ \E x, y \in Vecs :
        /\ vr' = [vr EXCEPT ![0] = x, ![1] = y] /\ hist' = <<SetOp(0, x), SetOp(1, y)>>
        /\ UNCHANGED <<p, fr, mr>>
  \/ /\ Len(hist) = 2
     /\ \E o \in Ops : VWrite(o) /\ hist' = Append(hist, o)
  \/ /\ Len(hist) = 3 /\ hist' = hist \o Queries /\ UNCHANGED avars
     /\ PrintT(<<"VF_B", ToJson(hist')>>)
Canonical == \A d \in DOMAIN vr : \A i \in DOMAIN vr[d] : vr[d][i] \in 1..(P - 1)
NReg0 == 6
=============================================================================
