--------------------------- MODULE DiscretizeTrace ---------------------------
(* Recorded discretizations.  Run r: which pieces are too large (split[c] for *)
(* the axes of code c = 1 lon + 2 lat + 4 rad, evaluated from the geometry    *)
(* terms of Discretize), which are small enough (fine), the capacity, and     *)
(* what the code returned: leaves, or an error.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RunData
VARIABLES r, pending, leaves
vars == <<r, pending, leaves>>
D == INSTANCE Discretize WITH Axes <- {1, 2, 3}, MaxLevel <- 60, Limit <- 0, need <- <<>>, status <- ""
Code(c) == {a \in 1..3 : (c \div (CASE a = 1 -> 1 [] a = 2 -> 2 [] a = 3 -> 4)) % 2 = 1}
Init == r = 1 /\ pending = {D!Root} /\ leaves = {}
\* one sweep over the pending pieces (the result does not depend on the order: Confluent)
Sweep == /\ r <= Len(Runs) /\ pending # {}
         /\ pending \subseteq Runs[r].fine \cup UNION {Runs[r].split[c] : c \in 1..7}
         /\ leaves' = leaves \cup (pending \cap Runs[r].fine)
         /\ pending' = UNION {UNION {D!Children(n, Code(c)) : n \in pending \cap Runs[r].split[c]} : c \in 1..7}
         /\ UNCHANGED r
Accept == /\ r <= Len(Runs) /\ pending = {}
          /\ IF Runs[r].error THEN Cardinality(leaves) > Runs[r].limit \/ Runs[r].tight
             ELSE Cardinality(leaves) <= Runs[r].limit /\ Runs[r].count = Cardinality(leaves) /\ Runs[r].leaves = leaves
          /\ r' = r + 1 /\ pending' = {D!Root} /\ leaves' = {}
Next == Sweep \/ Accept
Spec == Init /\ [][Next]_vars
NotStuck == r <= Len(Runs) => ENABLED Next
==============================================================================
