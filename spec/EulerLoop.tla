------------------------------ MODULE EulerLoop ------------------------------
(* Control of Euler inversion: iterations stop at the first small change of   *)
(* the merit function or at the maximum number, with a warning only in the    *)
(* second case; the candidate structural indices are inverted one after the   *)
(* other and the one with the smallest misfit (the first of equals) is kept.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIter, MaxCandidates, Misfits,
          Patterns    \* which iterations change little (sequences of MaxIter booleans)
VARIABLES small,      \* per candidate: TRUE at iterations whose change is below the tolerance
          misfit,     \* per candidate: rank of its final misfit
          limit,      \* maximum number of iterations
          it,         \* iterations done for the current candidate
          done,       \* iterations used by the finished candidates
          warned,     \* number of warnings
          best        \* candidate kept so far (0: none)
vars == <<small, misfit, limit, it, done, warned, best>>
N == Len(misfit)
Cand == Len(done) + 1
Init == /\ \E n \in 1..MaxCandidates : /\ small \in [1..n -> Patterns]
                                       /\ misfit \in [1..n -> Misfits]
        /\ limit \in 1..MaxIter /\ it = 0 /\ done = <<>> /\ warned = 0 /\ best = 0
Keep == IF best = 0 THEN Cand ELSE IF misfit[Cand] < misfit[best] THEN Cand ELSE best
Iterate == /\ Cand <= N /\ it < limit
           /\ LET k == it + 1 stop == small[Cand][k] last == k = limit IN
              IF stop \/ last
              THEN it' = 0 /\ done' = Append(done, k) /\ best' = Keep /\ warned' = warned + (IF stop THEN 0 ELSE 1)
              ELSE it' = k /\ UNCHANGED <<done, best, warned>>
           /\ UNCHANGED <<small, misfit, limit>>
Spec == Init /\ [][Iterate]_vars /\ WF_vars(Iterate)

Bounded == \A c \in 1..Len(done) : done[c] <= limit /\ done[c] >= 1
\* stopping early means the change was small then and never before
Earliest == \A c \in 1..Len(done) : /\ \A k \in 1..(done[c] - 1) : ~small[c][k]
                                    /\ (done[c] < limit => small[c][done[c]])
Warnings == warned = Cardinality({c \in 1..Len(done) : \A k \in 1..limit : ~small[c][k]})
Smallest == best # 0 => /\ \A c \in 1..Len(done) : misfit[best] <= misfit[c]
                        /\ \A c \in 1..(best - 1) : misfit[c] > misfit[best]
Ends == <>(Cand > N)
Emit == (Cand > N) => PrintT("@@" \o ToJson([small |-> small, misfit |-> misfit, limit |-> limit, done |-> done, warned |-> warned, best |-> best]))
==============================================================================
