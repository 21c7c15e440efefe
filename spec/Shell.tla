-------------------------------- MODULE Shell --------------------------------
(* A spherical shell cut into tesseroids and an observation point outside it. *)
(* Blocks <<w, e, s, n, b, t>> are counted in cells (longitude NLon cells per *)
(* turn from -NLon/2 to NLon, latitude 0..NLat, radius 0..NRad).  Blocks are  *)
(* split, written in another longitude convention, and the whole scene is     *)
(* rotated around the polar axis.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS NLon, NLat, NRad, Starts, MaxSteps,
          Random       \* TRUE: consider one random block per action (for simulation)
VARIABLES blocks, p, steps, cuts
vars == <<blocks, p, steps, cuts>>
Uniform(k) == {<<k * i, k * (i + 1), k * j, k * (j + 1), 0, NRad>> : i \in 0..(NLon \div k - 1), j \in 0..(NLat \div k - 1)}
Start(s) == CASE s = "whole" -> {<<0, NLon, 0, NLat, 0, NRad>>}
              [] s = "halves" -> {<<-(NLon \div 2), NLon \div 2, 0, NLat \div 2, 0, NRad>>, <<0, NLon, NLat \div 2, NLat, 0, NRad>>}
              [] s = "sides" -> {<<-(NLon \div 2), 0, 0, NLat, 0, NRad>>, <<0, NLon \div 2, 0, NLat, 0, NRad>>}
              [] s = "uneven" -> {<<0, NLon - 2, 0, NLat, 0, NRad>>, <<-2, 0, 0, NLat, 0, NRad>>}
              [] s = "fine" -> Uniform(2)
Init == \E s \in Starts : blocks = Start(s) /\ p = 1 /\ steps = 0 /\ cuts = 0
More == steps < MaxSteps /\ steps' = steps + 1
Pick == IF Random THEN {RandomElement(blocks)} ELSE blocks
InRange(b) == b[1] >= -(NLon \div 2) /\ b[2] <= NLon
Split == More /\ cuts' = cuts + 1 /\ UNCHANGED p /\ \E b \in Pick : \E a \in 1..3 : \E x \in (IF Random THEN {(b[2 * a - 1] + b[2 * a]) \div 2} ELSE (b[2 * a - 1] + 1)..(b[2 * a] - 1)) :
           /\ x > b[2 * a - 1] /\ x < b[2 * a]
           /\ blocks' = (blocks \ {b}) \cup {[b EXCEPT ![2 * a] = x], [b EXCEPT ![2 * a - 1] = x]}
TurnOf(b, k) == [b EXCEPT ![1] = @ + k * NLon, ![2] = @ + k * NLon]
Turn == More /\ UNCHANGED <<p, cuts>> /\ \E b \in Pick : \E k \in {-1, 1} : InRange(TurnOf(b, k)) /\ blocks' = (blocks \ {b}) \cup {TurnOf(b, k)}
TurnPoint == More /\ UNCHANGED <<blocks, cuts>> /\ \E k \in {-1, 1} : p' = p + k * NLon /\ p' > -2 * NLon /\ p' < 2 * NLon
\* rotation: blocks that leave the range are written one turn earlier
Moved(b, k) == LET q == [b EXCEPT ![1] = @ + k, ![2] = @ + k] IN IF q[2] > NLon THEN TurnOf(q, -1) ELSE q
Rotate == More /\ UNCHANGED cuts /\ \E k \in {1, 5, NLon \div 4} : (\A b \in blocks : InRange(Moved(b, k))) /\ blocks' = {Moved(b, k) : b \in blocks} /\ p' = p + k
Next == Split \/ Turn \/ TurnPoint \/ Rotate
Spec == Init /\ [][Next]_vars
\* every cell of the shell belongs to exactly one block
Owners(x, y, z) == {b \in blocks : b[3] <= y /\ y < b[4] /\ b[5] <= z /\ z < b[6] /\ \E k \in -1..1 : b[1] <= x + k * NLon /\ x + k * NLon < b[2]}
Cover == \A x \in 0..(NLon - 1), y \in 0..(NLat - 1), z \in 0..(NRad - 1) : Cardinality(Owners(x, y, z)) = 1
Valid == \A b \in blocks : InRange(b) /\ b[1] < b[2] /\ b[3] < b[4] /\ b[5] < b[6]
\* what the field can depend on: the blocks as seen from the point
Rel == {<<(b[1] - p) % NLon, b[2] - b[1], b[3], b[4], b[5], b[6]>> : b \in blocks}
Seen == [][cuts' = cuts => Rel' = Rel]_vars
Small == \A b \in blocks : b[2] - b[1] <= 2 /\ b[4] - b[3] <= 2
Case == [blocks |-> blocks, p |-> p, rel |-> Rel, small |-> Small]
EmitAll == PrintT("@@" \o ToJson(Case))
EmitLast == steps = MaxSteps => PrintT("@@" \o ToJson(Case))
\* field of the homogeneous shell between radii a and c
Cube(x) == Pow(V(x), 3)
Outside == Div(Mul3(V("G"), Mul(Q(4, 3), Pi), Mul(V("rho"), Sub(Cube("c"), Cube("a")))), V("r"))
OutsideG == Mul(N(100000), Div(Outside, V("r")))
Cavity == Mul3(Mul(N(2), Pi), V("G"), Mul(V("rho"), Sub(Sq(V("c")), Sq(V("a")))))
CavityG == N(0)
EmitDef == (steps = 0) => PrintT("@@" \o ToJson([kind |-> "def", potential |-> <<Outside, Cavity>>, g_z |-> <<OutsideG, CavityG>>]))
==============================================================================
