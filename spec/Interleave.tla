------------------------------ MODULE Interleave ------------------------------
(* Calls running at the same time in threads of one process.  A call is a     *)
(* sequence of chunks; between two chunks of one call any chunks of the       *)
(* others may run.  Each call leaves notes for its own later chunks: in its   *)
(* own memory (Place = "own"), or in memory all calls share.  With its own    *)
(* memory every call answers, in every interleaving, what it answers alone;   *)
(* shared memory is the negative control.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Chunks, Place
VARIABLES pc,        \* chunks done
          notes,     \* memory place -> what was noted there: <<of which call, up to which chunk>>
          seen,      \* what each call found at each chunk
          schedule
vars == <<pc, notes, seen, schedule>>
Where(t) == IF Place = "own" THEN t ELSE 0
Init == /\ pc = [t \in Threads |-> 0] /\ notes = [w \in Threads \cup {0} |-> <<0, 0>>]
        /\ seen = [t \in Threads |-> <<>>] /\ schedule = <<>>
Run(t) == /\ pc[t] < Chunks[t]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
          \* read the notes of the chunk before, leave the own ones
          /\ seen' = [seen EXCEPT ![t] = IF pc[t] = 0 THEN @ ELSE Append(@, notes[Where(t)])]
          /\ notes' = [notes EXCEPT ![Where(t)] = <<t, pc[t] + 1>>]
          /\ schedule' = Append(schedule, t)
Next == \E t \in Threads : Run(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* alone, chunk k + 1 finds what chunk k left
AsAlone == \A t \in Threads : seen[t] = [k \in 1..Len(seen[t]) |-> <<t, k>>]
Done == \A t \in Threads : pc[t] = Chunks[t]
Ends == <>Done
Count == \A t \in Threads : pc[t] = Cardinality({i \in 1..Len(schedule) : schedule[i] = t})
Emit == Done => PrintT("@@" \o ToJson([schedule |-> schedule]))
==============================================================================
