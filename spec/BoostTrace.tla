----------------------------- MODULE BoostTrace -----------------------------
(* Recorded fits.  Run r: the windows of the layout, each with the data and   *)
(* sources that are in it (Closed; on the border rounding decides: Open), and *)
(* what the code fitted one after the other.  A run is accepted when it is a  *)
(* behaviour of Boosting that visited every window.                           *)
EXTENDS Integers, Sequences, FiniteSets, RunData
VARIABLES r, k, visited
vars == <<r, k, visited>>
Init == r = 1 /\ k = 1 /\ visited = {}
Match(w, v) == w.dataIn \subseteq v.data /\ v.data \subseteq w.data /\ w.srcsIn \subseteq v.srcs /\ v.srcs \subseteq w.srcs
Visit == /\ r <= Len(Runs) /\ k <= Len(Runs[r].visits)
         \* windows with the same content are interchangeable: take the first that is left
         /\ LET left == {x \in 1..Len(Runs[r].windows) : x \notin visited /\ Match(Runs[r].windows[x], Runs[r].visits[k])} IN
            \E x \in left : /\ \A y \in left : Runs[r].windows[y] = Runs[r].windows[x] => x <= y
                            /\ visited' = visited \cup {x} /\ k' = k + 1 /\ UNCHANGED r
Must(w) == w.dataIn # {} /\ w.srcsIn # {}
Finish == /\ r <= Len(Runs) /\ k > Len(Runs[r].visits)
          /\ \A x \in 1..Len(Runs[r].windows) : Must(Runs[r].windows[x]) => x \in visited
          /\ r' = r + 1 /\ k' = 1 /\ visited' = {}
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
\* "violated" when all the runs are accepted
Unaccepted == r <= Len(Runs)
==============================================================================
