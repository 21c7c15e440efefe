---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded executions of the real loops, one iteration at a time: Runs is a  *)
(* sequence of [n, points, ..], iters[i] = [writes: cells the iteration        *)
(* changed when it ran alone, same: whether they got the values of the         *)
(* complete loop, ticks: progress updates].  The trace is accepted when every  *)
(* loop is conflict free in the sense of ParallelLoop.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RunData

VARIABLES r, i, owner, ticks
vars == <<r, i, owner, ticks>>
Init == r = 1 /\ i = 1 /\ owner = [c \in {} |-> 0] /\ ticks = 0
Cells(s) == {s[k] : k \in 1..Len(s)}
Iter == /\ r <= Len(Runs) /\ i <= Runs[r].n
        /\ LET e == Runs[r].iters[i] IN
           /\ Cells(e.writes) \cap DOMAIN owner = {}      \* nobody else wrote there
           /\ e.same                                      \* and nobody else was needed
           /\ owner' = [c \in DOMAIN owner \cup Cells(e.writes) |-> IF c \in DOMAIN owner THEN owner[c] ELSE i]
           /\ ticks' = ticks + e.ticks
        /\ i' = i + 1 /\ UNCHANGED r
NextRun == /\ r <= Len(Runs) /\ i = Runs[r].n + 1
           /\ DOMAIN owner = 1..Runs[r].cells             \* every output cell is written by somebody
           /\ ticks = IF Runs[r].bar THEN Runs[r].points ELSE 0
           /\ r' = r + 1 /\ i' = 1 /\ owner' = [c \in {} |-> 0] /\ ticks' = 0
Next == Iter \/ NextRun
Spec == Init /\ [][Next]_vars
\* a trace that is not accepted stops before its end
NotStuck == r <= Len(Runs) => ENABLED Next
=============================================================================
