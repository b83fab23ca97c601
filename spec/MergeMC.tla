------------------------------ MODULE MergeMC ------------------------------
(* intersect_sorted_lt as a state machine (two cursors, one output): for all sorted lists a, b over 1..N and every bound. *)
EXTENDS Perm
CONSTANT N
VARIABLES a, b, m, i, j, c, done
vars == <<a, b, m, i, j, c, done>>
Lists == {SetSeq(S) : S \in SUBSET (1..N)}
Init == a \in Lists /\ b \in Lists /\ m \in 0..(N + 1) /\ i = 1 /\ j = 1 /\ c = <<>> /\ done = FALSE
Live == i <= Len(a) /\ j <= Len(b) /\ a[i] < m /\ b[j] < m
Keep == UNCHANGED <<a, b, m>>
StepA == ~done /\ Live /\ a[i] < b[j] /\ i' = i + 1 /\ UNCHANGED <<j, c, done>> /\ Keep
StepB == ~done /\ Live /\ b[j] < a[i] /\ j' = j + 1 /\ UNCHANGED <<i, c, done>> /\ Keep
Take == ~done /\ Live /\ a[i] = b[j] /\ c' = Append(c, a[i]) /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED done /\ Keep
Stop == ~done /\ ~Live /\ done' = TRUE /\ UNCHANGED <<i, j, c>> /\ Keep
Next == StepA \/ StepB \/ Take \/ Stop \/ (done /\ UNCHANGED vars)
Want == {v \in Rng(a) \cap Rng(b) : v < m}
\* everything wanted is already taken or still ahead of both cursors; nothing else is ever taken
Safe == /\ Rng(c) = {v \in Want : v \in {a[k] : k \in 1..(i - 1)} /\ v \in {b[k] : k \in 1..(j - 1)}}
        /\ Incr(c)
        /\ \A v \in Want \ Rng(c) : (\E k \in i..Len(a) : a[k] = v) /\ (\E k \in j..Len(b) : b[k] = v)
        /\ done => c = SetSeq(Want)
\* the cursors never turn back and every step but the last advances one of them
Ends == [][i' + j' > i + j \/ done']_vars
=============================================================================
