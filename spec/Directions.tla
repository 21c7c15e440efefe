------------------------------ MODULE Directions ------------------------------
(* Magnetic vectors and their angles: inclination positive down, declination  *)
(* clockwise from north.  A direction is turned step by step; vectors on an   *)
(* integer lattice have exact octants, angles are multiples of 15 degrees.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Range, Degrees
VARIABLES kind, v
vars == <<kind, v>>
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
\* vector -> angles
Horizontal == Sqrt(Add(Sq(V("e")), Sq(V("n"))))
Intensity == Hyp(V("e"), V("n"), V("u"))
Inclination == Atan2(Neg(V("u")), Horizontal)
Declination == Atan2(V("e"), V("n"))
\* angles -> vector
Rad(x) == Div(Mul(V(x), Pi), N(180))
East == Mul3(V("f"), Cos(Rad("inc")), Sin(Rad("dec")))
North == Mul3(V("f"), Cos(Rad("inc")), Cos(Rad("dec")))
Upw == Neg(Mul(V("f"), Sin(Rad("inc"))))
Projection == Add3(Mul(V("be"), East), Mul(V("bn"), North), Mul(V("bu"), Upw))
Init == \/ kind = "vector" /\ v \in Range \X Range \X Range /\ v # <<0, 0, 0>>
        \/ kind = "angles" /\ v \in [1..2 -> Degrees]
\* the same direction written with other angles
Flip(a) == <<180 - a[1], a[2] + 180>>
Next == \/ kind = "vector" /\ UNCHANGED kind /\ \E k \in 1..3 : v' = [v EXCEPT ![k] = -@]
        \/ kind = "angles" /\ UNCHANGED kind /\ v[1] > -90 /\ v[1] < 90 /\ v' = Flip(v)
Spec == Init /\ [][Next]_vars
\* octants: where the angles of a lattice vector have to lie (degrees, closed bounds)
IncSign == -Sign(v[3])
DecRange == CASE v[1] = 0 /\ v[2] = 0 -> <<-180, 180>>
              [] v[1] = 0 /\ v[2] > 0 -> <<0, 0>> [] v[1] = 0 /\ v[2] < 0 -> <<180, 180>>
              [] v[2] = 0 /\ v[1] > 0 -> <<90, 90>> [] v[2] = 0 /\ v[1] < 0 -> <<-90, -90>>
              [] v[1] > 0 /\ v[2] > 0 -> IF v[1] > v[2] THEN <<45, 90>> ELSE <<0, 45>>
              [] v[1] > 0 /\ v[2] < 0 -> IF v[1] > -v[2] THEN <<90, 135>> ELSE <<135, 180>>
              [] v[1] < 0 /\ v[2] > 0 -> IF -v[1] > v[2] THEN <<-90, -45>> ELSE <<-45, 0>>
              [] OTHER -> IF v[1] < v[2] THEN <<-135, -90>> ELSE <<-180, -135>>
\* mirroring the vector in a plane mirrors the range of its declination
Mirrors == kind = "vector" => /\ DecRange[1] <= DecRange[2] /\ DecRange[1] >= -180 /\ DecRange[2] <= 180
                              /\ IncSign * v[3] <= 0
\* quarter of the horizontal plane an angle points to, from exact multiples of 15 degrees
Quad(d) == LET m == ((d % 360) + 360) % 360 IN IF m % 90 = 0 THEN <<(IF m = 90 THEN 1 ELSE IF m = 270 THEN -1 ELSE 0), (IF m = 0 THEN 1 ELSE IF m = 180 THEN -1 ELSE 0)>>
           ELSE <<(IF m < 180 THEN 1 ELSE -1), (IF m < 90 \/ m > 270 THEN 1 ELSE -1)>>
CosSign(i) == LET m == ((i % 360) + 360) % 360 IN IF m \in {90, 270} THEN 0 ELSE IF m < 90 \/ m > 270 THEN 1 ELSE -1
SinSign(i) == Quad(i)[1]
Signs(a) == <<CosSign(a[1]) * Quad(a[2])[1], CosSign(a[1]) * Quad(a[2])[2], -SinSign(a[1])>>
FlipSame == kind = "angles" => Signs(Flip(v)) = Signs(v)
Emit == /\ (kind = "vector") => PrintT("@@" \o ToJson([kind |-> kind, v |-> v, inc |-> IncSign, dec |-> DecRange]))
        /\ (kind = "angles") => PrintT("@@" \o ToJson([kind |-> kind, v |-> v, signs |-> Signs(v)]))
        /\ (kind = "vector" /\ v = <<1, 1, 1>>) =>
             PrintT("@@" \o ToJson([kind |-> "def", intensity |-> Intensity, inclination |-> Inclination, declination |-> Declination,
                                    east |-> East, north |-> North, up |-> Upw, projection |-> Projection]))
==============================================================================
