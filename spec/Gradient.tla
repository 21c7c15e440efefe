------------------------------ MODULE Gradient ------------------------------
(* What the total gradient amplitude and the tilt angle do with the three     *)
(* first derivatives <<e, n, u>> of a field, and how they react when the      *)
(* field is scaled, reversed, mirrored or its horizontal axes are exchanged.  *)
EXTENDS Integers, Sequences, TLC, Json, Terms
CONSTANTS Range, Factors, MaxSteps
VARIABLES d, changes
vars == <<d, changes>>
Sqr(v) == v * v
Tga2(g) == Sqr(g[1]) + Sqr(g[2]) + Sqr(g[3])
Hor2(g) == Sqr(g[1]) + Sqr(g[2])
\* tilt compared through its tangent u / hor: sign(u), then u^2 / hor2 (hor2 = 0: +-90 degrees)
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
SameTilt(a, b) == Sign(a[3]) = Sign(b[3]) /\ Sqr(a[3]) * Hor2(b) = Sqr(b[3]) * Hor2(a) /\ ((Hor2(a) = 0) <=> (Hor2(b) = 0))
Scale(g, k) == <<k * g[1], k * g[2], k * g[3]>>
Swap(g) == <<g[2], g[1], g[3]>>
MirrorE(g) == <<-g[1], g[2], g[3]>>
MirrorN(g) == <<g[1], -g[2], g[3]>>
Init == d \in Range \X Range \X Range /\ d # <<0, 0, 0>> /\ changes = <<>>
Step(name, k, g) == d' = g /\ changes' = Append(changes, [op |-> name, k |-> k])
Next == Len(changes) < MaxSteps /\
  (\/ \E k \in Factors : Step("scale", k, Scale(d, k)) \/ Step("swap", 0, Swap(d)) \/ Step("mirror-e", 0, MirrorE(d)) \/ Step("mirror-n", 0, MirrorN(d)))
Spec == Init /\ [][Next]_vars
Last == changes'[Len(changes')]
\* only scaling changes the amplitude, only its sign changes the tilt
Amplitude == [][Tga2(d') = (IF Last.op = "scale" THEN Sqr(Last.k) ELSE 1) * Tga2(d)]_vars
Tilt == [][IF Last.op = "scale" /\ Last.k < 0 THEN SameTilt(Scale(d, -1), d') ELSE SameTilt(d, d')]_vars
Range90 == Sqr(d[3]) <= Tga2(d)
E == V("e")
Nn == V("n")
U == V("u")
Def == [tga |-> Sqrt(Add3(Sq(E), Sq(Nn), Sq(U))), tilt |-> Atan2(U, Sqrt(Add(Sq(E), Sq(Nn))))]
Emit == (d = <<1, 0, 0>> /\ changes = <<>>) => PrintT("@@" \o ToJson([kind |-> "def", tga |-> Def.tga, tilt |-> Def.tilt]))
EmitChanges == changes # <<>> =>
   PrintT("@@" \o ToJson([kind |-> "case", changes |-> changes]))
==============================================================================
