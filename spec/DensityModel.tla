---------------------------- MODULE DensityModel ----------------------------
(* A shell made of layers with one density function of the radius,            *)
(* rho(r) = f[1] + f[2] r, with integer radii and coefficients.  Layers are   *)
(* cut without changing the function; functions are scaled and added.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Bottom, Top, Cuts, Consts, Slopes, Factors, MaxSteps
VARIABLES layers, f, steps
vars == <<layers, f, steps>>
Init == layers = {<<Bottom, Top>>} /\ f \in Consts \X Slopes /\ steps = 0
More == steps < MaxSteps /\ steps' = steps + 1
Cut == More /\ UNCHANGED f /\ \E l \in layers, x \in Cuts : l[1] < x /\ x < l[2] /\ layers' = (layers \ {l}) \cup {<<l[1], x>>, <<x, l[2]>>}
Strip == More /\ UNCHANGED f /\ Cardinality(layers) > 1 /\ \E l \in layers : layers' = layers \ {l}
Scale == More /\ UNCHANGED layers /\ \E k \in Factors : f' = <<k * f[1], k * f[2]>>
Plus == More /\ UNCHANGED layers /\ \E a \in Consts, b \in Slopes : f' = <<f[1] + a, f[2] + b>>
Next == Cut \/ Strip \/ Scale \/ Plus
Spec == Init /\ [][Next]_vars
P2(x) == x * x
P3(x) == x * x * x
P4(x) == x * x * x * x
\* 12 times the integral of rho r^2 dr over a layer, 6 times that of rho r dr
Moment(l, g) == 4 * g[1] * (P3(l[2]) - P3(l[1])) + 3 * g[2] * (P4(l[2]) - P4(l[1]))
Inner(l, g) == 3 * g[1] * (P2(l[2]) - P2(l[1])) + 2 * g[2] * (P3(l[2]) - P3(l[1]))
RECURSIVE Sum1(_, _) 
Sum1(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Moment(x, g) + Sum1(S \ {x}, g)
RECURSIVE Sum2(_, _)
Sum2(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Inner(x, g) + Sum2(S \ {x}, g)
SameMass == [][Cut => Sum1(layers', f') = Sum1(layers, f) /\ Sum2(layers', f') = Sum2(layers, f)]_vars
Linear == [][(layers' = layers) => Sum1(layers, f') = Sum1(layers, f) + Sum1(layers, <<f'[1] - f[1], f'[2] - f[2]>>)]_vars
NoOverlap == \A a, b \in layers : a # b => a[2] <= b[1] \/ b[2] <= a[1]
\* between the values at both ends, since the function is linear
Sandwich == \A l \in layers : LET lo == f[1] + f[2] * l[1]  hi == f[1] + f[2] * l[2]
   IN /\ Moment(l, f) >= 4 * (IF lo < hi THEN lo ELSE hi) * (P3(l[2]) - P3(l[1]))
      /\ Moment(l, f) <= 4 * (IF lo < hi THEN hi ELSE lo) * (P3(l[2]) - P3(l[1]))
Outside == Div(Mul(V("G"), Mul3(N(4), Pi, V("m2"))), V("r"))
OutsideG == Mul(N(100000), Div(Outside, V("r")))
Cavity == Mul(V("G"), Mul3(N(4), Pi, V("m1")))
Emit == PrintT("@@" \o ToJson([layers |-> layers, f |-> f, m2 |-> Sum1(layers, f), m1 |-> Sum2(layers, f)]))
EmitDef == (steps = 0) => PrintT("@@" \o ToJson([kind |-> "def", potential |-> <<Outside, Cavity>>, g_z |-> <<OutsideG, N(0)>>]))
==============================================================================
