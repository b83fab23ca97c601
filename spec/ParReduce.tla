----------------------------- MODULE ParReduce -----------------------------
(***************************************************************************)
(* Divide-and-conquer reduction with concurrent block tasks.  A binary     *)
(* tree of blocks over the columns; a leaf task reduces its columns left   *)
(* to right, an inner task starts once both children are done and reduces  *)
(* the non-zero columns of its right half against the pivots of the left.  *)
(* One step of a task is one column addition or one pivot registration, so *)
(* TLC explores all interleavings of sibling tasks.                        *)
(***************************************************************************)
EXTENDS Reduction
CONSTANTS P, NR, NC
VARIABLES A, R, task        \* task[t]: [st, todo, p2c, nz]
vars == <<A, R, task>>
\* blocks: 1 = root, 2 = left, 3 = right, (4,5) leaves of 2, (6,7) leaves of 3
Tasks == 1..7
Lo(t) == CASE t = 1 -> 1 [] t = 2 -> 1 [] t = 3 -> NC \div 2 + 1 [] t = 4 -> 1 [] t = 5 -> (NC \div 2) \div 2 + 1
           [] t = 6 -> NC \div 2 + 1 [] t = 7 -> NC \div 2 + (NC - NC \div 2) \div 2 + 1
Hi(t) == CASE t = 1 -> NC [] t = 2 -> NC \div 2 [] t = 3 -> NC [] t = 4 -> (NC \div 2) \div 2 [] t = 5 -> NC \div 2
           [] t = 6 -> NC \div 2 + (NC - NC \div 2) \div 2 [] t = 7 -> NC
Leaf(t) == t >= 4
Cols == {VMk(P, 0..(NR - 1), LAMBDA i : f[i]) : f \in [0..(NR - 1) -> 0..(P - 1)]}
Init == /\ \E f \in [1..NC -> Cols] : A = Mat(NR, NC, f)
        /\ R = A
        /\ task = [t \in Tasks |-> [st |-> "wait", todo |-> <<>>, p2c |-> VZero, nz |-> <<>>]]
Start(t) == /\ task[t].st = "wait"
            /\ IF Leaf(t) THEN task' = [task EXCEPT ![t].st = "run", ![t].todo = [k \in 1..(Hi(t) - Lo(t) + 1) |-> Lo(t) + k - 1]]
               ELSE /\ task[2 * t].st = "done" /\ task[2 * t + 1].st = "done"
                    /\ task' = [task EXCEPT ![t].st = "run", ![t].todo = task[2 * t + 1].nz, ![t].p2c = task[2 * t].p2c, ![t].nz = task[2 * t].nz]
            /\ UNCHANGED <<A, R>>
Step(t) == /\ task[t].st = "run" /\ task[t].todo # <<>>
           /\ LET j == Head(task[t].todo) x == R.c[j] IN
              IF DOMAIN x = {} THEN task' = [task EXCEPT ![t].todo = Tail(@)] /\ UNCHANGED R
              ELSE LET i == VPivot(x) IN
                   IF i \in DOMAIN task[t].p2c
                   THEN LET k == task[t].p2c[i] IN
                        R' = AddCol(P, R, k, j, FNeg(P, FDiv(P, x[i], R.c[k][i]))) /\ UNCHANGED task
                   ELSE task' = [task EXCEPT ![t].p2c = (i :> j) @@ @, ![t].nz = Append(@, j), ![t].todo = Tail(@)] /\ UNCHANGED R
           /\ UNCHANGED A
Finish(t) == task[t].st = "run" /\ task[t].todo = <<>> /\ task' = [task EXCEPT ![t].st = "done"] /\ UNCHANGED <<A, R>>
Next == \E t \in Tasks : Start(t) \/ Step(t) \/ Finish(t)
Running(t) == task[t].st = "run"
\* concurrently running tasks own disjoint columns (reads and writes)
Disjoint == \A s, t \in Tasks : (s < t /\ Running(s) /\ Running(t)) => Hi(s) < Lo(t) \/ Hi(t) < Lo(s)
\* a registered pivot column really has that pivot (no stale p2c)
Fresh == \A t \in Tasks : Running(t) => \A i \in DOMAIN task[t].p2c : DOMAIN R.c[task[t].p2c[i]] # {} /\ VPivot(R.c[task[t].p2c[i]]) = i
Done == task[1].st = "done"
Right == Done => /\ IsReduced(R) /\ PivotMap(R) = SeqPairs(P, A)
                 /\ LET f == task[1].p2c IN [i \in 1..NR |-> IF (i - 1) \in DOMAIN f THEN f[i - 1] - 1 ELSE NoInd] = SeqPairs(P, A)
                 /\ SameSpans(P, A, R)
\* no deadlock before completion
Live == Done \/ ENABLED Next
=============================================================================
