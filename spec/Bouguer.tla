------------------------------- MODULE Bouguer -------------------------------
(* Bouguer slab over a growing profile of topography: rock above zero, the    *)
(* contrast of water and crust below it, nothing known at gaps.               *)
EXTENDS Integers, Sequences, TLC, Json, Terms
CONSTANTS Heights, Gap, Crusts, Waters, MaxLen
VARIABLES topo, crust, water
vars == <<topo, crust, water>>
\* surface density (density times thickness), NaN at gaps
Slab(v) == IF v = Gap THEN Gap ELSE IF v >= 0 THEN crust * v ELSE (water - crust) * (-v)
Init == topo = <<>> /\ crust \in Crusts /\ water \in Waters
Grow == Len(topo) < MaxLen /\ \E v \in Heights \cup {Gap} : topo' = Append(topo, v) /\ UNCHANGED <<crust, water>>
Spec == Init /\ [][Grow]_vars
Continuous == Slab(0) = 0
Linear == \A k \in 1..Len(topo) : topo[k] # Gap => \A m \in 1..3 : Slab(m * topo[k]) = m * Slab(topo[k])
Land == \A k \in 1..Len(topo) : (topo[k] # Gap /\ topo[k] > 0 /\ crust > 0) => Slab(topo[k]) > 0
Sea == \A k \in 1..Len(topo) : (topo[k] # Gap /\ topo[k] < 0 /\ water < crust) => Slab(topo[k]) < 0
\* mGal per unit of surface density
Factor == Mul(N(100000), Mul3(N(2), Pi, V("G")))
Emit == topo # <<>> => PrintT("@@" \o ToJson([topo |-> topo, crust |-> crust, water |-> water, slab |-> [k \in 1..Len(topo) |-> Slab(topo[k])], factor |-> Factor]))
==============================================================================
