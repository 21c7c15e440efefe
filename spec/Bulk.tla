------------------------------- MODULE Bulk -------------------------------
(* Going through many items in pieces.                                      *)
(*                                                                          *)
(* The forward models, the predictors and the layers are maps over items    *)
(* (observation points, cells), or sums over items (sources).  Whatever     *)
(* internal blocks, buffers or threads a model uses for n items, its result *)
(* is the one of handing the items over in any consecutive pieces: joined   *)
(* (map) or added up (sum).                                                 *)
(*                                                                          *)
(* The machine hands over the items 0 .. n-1 in pieces whose sizes are      *)
(* chosen at every step; the last one may be cut.  TLC checks that every    *)
(* item is handed over exactly once and in order, in every run, which is    *)
(* what makes the two results comparable position by position.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes,      \* numbers of items
          Pieces      \* sizes of a piece

VARIABLES n, size, cuts, done
vars == <<n, size, cuts, done>>

Min(a, b) == IF a < b THEN a ELSE b
Last == cuts[Len(cuts)]

Init == n \in Sizes /\ size \in Pieces /\ cuts = <<0>> /\ done = FALSE

Hand == /\ ~done
        /\ Last < n
        /\ cuts' = Append(cuts, Min(n, Last + size))
        /\ size' \in Pieces
        /\ UNCHANGED <<n, done>>
Finish == ~done /\ Last = n /\ done' = TRUE /\ UNCHANGED <<n, size, cuts>>

Next == Hand \/ Finish
Spec == Init /\ [][Next]_vars

Ordered == \A k \in 1..Len(cuts) - 1 : cuts[k] < cuts[k + 1] /\ cuts[k + 1] - cuts[k] \in 1..(CHOOSE m \in Pieces : \A p \in Pieces : p <= m)
InRange == cuts[1] = 0 /\ Last <= n
RECURSIVE Total(_)
Total(k) == IF k = 1 THEN 0 ELSE cuts[k] - cuts[k - 1] + Total(k - 1)
\* every item in exactly one piece
Once == done => Total(Len(cuts)) = n /\ \A i \in {0, n - 1, n \div 2} \cap 0..n - 1 : Cardinality({k \in 1..Len(cuts) - 1 : cuts[k] <= i /\ i < cuts[k + 1]}) = 1
Emit == done => PrintT("@@" \o ToJson([n |-> n, cuts |-> cuts]))
=============================================================================
