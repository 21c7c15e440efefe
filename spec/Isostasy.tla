------------------------------ MODULE Isostasy ------------------------------
(* Airy isostasy: a column of mantle, crust, layers on top of the basement.   *)
(* A column is edited (basement moved, layers added or removed) and its Moho  *)
(* is the depth that keeps the weight above the compensation depth equal to   *)
(* that of the reference column.  Lengths and densities are integers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Heights, Thicknesses, Densities, Crusts, Mantles, References, MaxLayers, MaxSteps
VARIABLES h, layers, crust, mantle, ref, steps
vars == <<h, layers, crust, mantle, ref, steps>>
RECURSIVE Load(_)
Load(s) == IF s = <<>> THEN 0 ELSE Head(s).t * Head(s).d + Load(Tail(s))
\* (moho - ref) (mantle - crust) = crust h + sum of layer loads
RootNum == crust * h + Load(layers)
RootDen == mantle - crust
Init == h \in Heights /\ layers = <<>> /\ crust \in Crusts /\ mantle \in Mantles /\ ref \in References /\ steps = 0 /\ mantle > crust
More == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<crust, mantle, ref>>
Move == More /\ \E v \in Heights : h' = v /\ UNCHANGED layers
Deposit == More /\ Len(layers) < MaxLayers /\ \E t \in Thicknesses, d \in Densities : layers' = Append(layers, [t |-> t, d |-> d]) /\ UNCHANGED h
Strip == More /\ layers # <<>> /\ layers' = Tail(layers) /\ UNCHANGED h
\* replace rock of the crust by a layer of the same density: the load does not change
Convert == More /\ Len(layers) < MaxLayers /\ \E t \in Thicknesses : layers' = Append(layers, [t |-> t, d |-> crust]) /\ h' = h - t
Reorder == More /\ Len(layers) > 1 /\ layers' = Tail(layers) \o <<Head(layers)>> /\ UNCHANGED h
Next == Move \/ Deposit \/ Strip \/ Convert \/ Reorder
Spec == Init /\ [][Next]_vars
\* columns down to compensation depth C (below every Moho), in units of 1/RootDen:
\* layers + crust from basement to Moho + mantle to C  =  crust from 0 to reference + mantle to C
Weight(C) == RootDen * Load(layers) + crust * (RootDen * (h + ref) + RootNum) + mantle * (RootDen * (C - ref) - RootNum)
RefWeight(C) == RootDen * (crust * ref + mantle * (C - ref))
Balanced == \A C \in {100, 400} : Weight(C) = RefWeight(C)
Same == [][(Convert \/ Reorder) => RootNum' = RootNum]_vars
Deeper == [][(\E t \in Thicknesses, d \in Densities : layers' = Append(layers, [t |-> t, d |-> d]) /\ h' = h /\ t > 0 /\ d > 0) => RootNum' > RootNum]_vars
Emit == PrintT("@@" \o ToJson([h |-> h, layers |-> layers, crust |-> crust, mantle |-> mantle, ref |-> ref, num |-> RootNum + ref * RootDen, den |-> RootDen]))
==============================================================================
