---------------------------- MODULE EllipsoidState ----------------------------
(* An ellipsoid object under assignments, valid and invalid.  Values are      *)
(* labels; the verdict on an assignment only depends on the attribute and the *)
(* class of the value.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS MaxOps, Attrs
VARIABLES obj,     \* attribute -> label, or "none" before construction succeeded
          trail    \* <<attribute, label, outcome>>
vars == <<obj, trail>>
Axes == {"a", "b", "c"}
Angles == {"yaw", "pitch", "roll"}
Good(x) == CASE x \in Axes -> {"2", "7", "7.5", "np3"}
             [] x \in Angles -> {"0", "35", "-120", "np90", "725"}
             [] x = "center" -> {"origin", "moved", "ints", "carray"}
             [] x = "density" -> {"none", "100", "np250", "int3", "zero", "-40"}
             [] x = "susceptibility" -> {"none", "0.5", "int1", "tensor", "skew", "zero", "-0.01"}
             [] x = "remanent_mag" -> {"none", "list", "tuple", "array", "zeros", "integers"}
Value(x) == CASE x \in Axes -> {"0", "-3", "nan"} [] x = "center" -> {"pair", "four", "row", "number"} [] x = "susceptibility" -> {"array3", "array22", "array331"} [] x = "remanent_mag" -> {"list2", "array33", "array4", "matrix1"} [] OTHER -> {}
Type(x) == CASE x = "density" -> {"list", "text", "array"} [] x = "susceptibility" -> {"list", "text"} [] x = "remanent_mag" -> {"number", "dict"} [] OTHER -> {}
Default == [x \in Axes \cup Angles \cup {"center", "density", "susceptibility", "remanent_mag"} |->
             CASE x = "a" -> "7" [] x = "b" -> "2" [] x = "c" -> "np3" [] x \in Angles -> "0" [] x = "center" -> "origin" [] OTHER -> "none"]
Alive == DOMAIN obj # {}
Init == obj = [x \in {} |-> ""] /\ trail = <<>>
Step(x, v, o) == trail' = Append(trail, <<x, v, o>>)
\* construction with one attribute other than default
Create == ~Alive /\ Len(trail) < MaxOps /\ \E x \in Attrs :
            \/ \E v \in Good(x) : obj' = [Default EXCEPT ![x] = v] /\ Step(x, v, "new")
            \/ \E v \in Value(x) : UNCHANGED obj /\ Step(x, v, "new ValueError")
            \/ \E v \in Type(x) : UNCHANGED obj /\ Step(x, v, "new TypeError")
Assign == Alive /\ Len(trail) < MaxOps /\ \E x \in Attrs :
            \/ \E v \in Good(x) : obj' = [obj EXCEPT ![x] = v] /\ Step(x, v, "ok")
            \/ \E v \in Value(x) : UNCHANGED obj /\ Step(x, v, "ValueError")
            \/ \E v \in Type(x) : UNCHANGED obj /\ Step(x, v, "TypeError")
Next == Create \/ Assign
Spec == Init /\ [][Next]_vars
TypeOk == Alive => \A x \in DOMAIN obj : obj[x] \in Good(x)
\* every attribute holds the last value that was accepted
Last(x) == LET S == {k \in 1..Len(trail) : trail[k][1] = x /\ trail[k][3] \in {"ok", "new"}}
           IN IF S = {} THEN Default[x] ELSE trail[CHOOSE k \in S : \A j \in S : j <= k][2]
LastWins == Alive => \A x \in DOMAIN obj : obj[x] = Last(x)
OnlyOne == [][Cardinality({x \in DOMAIN obj : obj'[x] # obj[x]}) <= 1]_vars
\* rotation of the body: yaw around up, then pitch (positive lifts the easting side), then roll, around the rotated axes
R(x) == Div(Mul(V(x), Pi), N(180))
Cy == Cos(R("yaw"))
Sy == Sin(R("yaw"))
Cp == Cos(R("pitch"))
Sp == Sin(R("pitch"))
Cr == Cos(R("roll"))
Sr == Sin(R("roll"))
Rotation == << <<Mul(Cy, Cp), Add(Neg(Mul(Sy, Cr)), Neg(Mul3(Cy, Sp, Sr))), Add(Mul(Sy, Sr), Neg(Mul3(Cy, Sp, Cr)))>>,
               <<Mul(Sy, Cp), Add(Mul(Cy, Cr), Neg(Mul3(Sy, Sp, Sr))), Add(Neg(Mul(Cy, Sr)), Neg(Mul3(Sy, Sp, Cr)))>>,
               <<Sp, Mul(Cp, Sr), Mul(Cp, Cr)>> >>
Emit == /\ trail # <<>> => PrintT("@@" \o ToJson([trail |-> trail, alive |-> Alive]))
        /\ trail = <<>> => PrintT("@@" \o ToJson([kind |-> "def", rotation |-> Rotation]))
==============================================================================
