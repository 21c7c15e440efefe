------------------------------ MODULE IgrfLife ------------------------------
(* Several models of different dates and degrees, used in any order: what a   *)
(* use returns depends on the date, the degrees and the arguments only.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dates, Ranges, Slots, MaxLen  \* Ranges: <<min_degree, max_degree>>
VARIABLES models, trail
vars == <<models, trail>>
None == [date |-> 0, range |-> <<0, 0>>]
Init == models = [s \in Slots |-> None] /\ trail = <<>>
Room == Len(trail) < MaxLen
Make(s) == Room /\ \E d \in Dates, r \in Ranges : /\ models' = [models EXCEPT ![s] = [date |-> d, range |-> r]]
                                                  /\ trail' = Append(trail, [op |-> "make", slot |-> s, date |-> d, range |-> r])
Use(s, op) == Room /\ models[s] # None /\ UNCHANGED models
              /\ trail' = Append(trail, [op |-> op, slot |-> s, date |-> models[s].date, range |-> models[s].range])
Next == \E s \in Slots : Make(s) \/ \E op \in {"coefficients", "predict", "grid"} : Use(s, op)
Spec == Init /\ [][Next]_vars
\* what a use of a slot returns is the one of the last model put into it
Latest(s, k) == CHOOSE j \in 1..k : trail[j].op = "make" /\ trail[j].slot = s /\ \A i \in (j + 1)..k : ~(trail[i].op = "make" /\ trail[i].slot = s)
Own == \A k \in 1..Len(trail) : trail[k].op # "make" => LET j == Latest(trail[k].slot, k) IN trail[j].date = trail[k].date /\ trail[j].range = trail[k].range
Emit == (Len(trail) = MaxLen /\ trail[MaxLen].op # "make") => PrintT("@@" \o ToJson([trail |-> trail]))
==============================================================================
