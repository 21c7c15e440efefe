------------------------------- MODULE Describe -------------------------------
(* What results say about themselves.  An object holds named facts, some of   *)
(* them unset; making a description copies the facts that are set, and a      *)
(* description that was made stays what it was when facts change later or     *)
(* other descriptions are made.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, MaxSteps
VARIABLES facts,    \* name -> label ("unset" when there is none)
          made,     \* sequence of descriptions
          trail     \* what was done
vars == <<facts, made, trail>>
Labels(x) ==
  CASE Kind = "body" ->
         (CASE x \in {"a", "b", "c"} -> {"2", "7.5", "np3", "int40"}
            [] x \in {"yaw", "pitch", "roll"} -> {"0", "35", "-120.5"}
            [] x = "center" -> {"origin", "moved", "carray"}
            [] x = "density" -> {"unset", "100", "np250", "zero", "-40"}
            [] x = "susceptibility" -> {"unset", "0.5", "zero", "tensor", "skew"}
            [] x = "remanent_mag" -> {"unset", "list", "array", "zeros"})
    [] Kind = "igrf" ->
         (CASE x = "region" -> {"pacific", "zero", "globe"} [] x = "height" -> {"number", "array"} [] x = "nodes" -> {"shape", "spacing", "ideal", "adjusted"} [] OTHER -> {})
    [] Kind = "moho" ->
         (CASE x = "crust" -> {"2800", "2670.5"} [] x = "mantle" -> {"3300", "int3200"} [] x = "water" -> {"unset", "1040", "1025.5"} [] x = "salt" -> {"unset", "2100"}
            [] x = "basement" -> {"grid", "named grid", "kept grid"})
    [] Kind = "layer" ->
         (CASE x = "of" -> {"prisms", "tesseroids"} [] x = "density" -> {"unset", "numbers"} [] x = "other" -> {"unset", "numbers"})
Names == CASE Kind = "body" -> {"a", "b", "c", "yaw", "pitch", "roll", "center", "density", "susceptibility", "remanent_mag"}
           [] Kind = "igrf" -> {"region", "height", "nodes"}
           [] Kind = "moho" -> {"crust", "mantle", "water", "salt", "basement"}
           [] Kind = "layer" -> {"of", "density", "other"}
First == [x \in Names |->
   CASE x = "a" -> "7.5" [] x = "b" -> "2" [] x = "c" -> "np3" [] x \in {"yaw", "pitch", "roll"} -> "0" [] x = "center" -> "origin" [] x \in {"susceptibility", "remanent_mag", "water", "salt", "other", "density"} -> "unset"
     [] x = "region" -> "zero" [] x = "height" -> "number" [] x = "nodes" -> "shape" [] x = "crust" -> "2800" [] x = "mantle" -> "3300" [] x = "basement" -> "grid" [] x = "of" -> "prisms"]
Init == facts = First /\ made = <<>> /\ trail = <<>>
SetFact == \E x \in Names : \E v \in Labels(x) : /\ v # facts[x] /\ facts' = [facts EXCEPT ![x] = v]
                                             /\ trail' = Append(trail, <<"set", x, v>>) /\ UNCHANGED made
Known == {x \in Names : facts[x] # "unset"}
Tell == made' = Append(made, [x \in Known |-> facts[x]]) /\ trail' = Append(trail, <<"tell", "", "">>) /\ UNCHANGED facts
Next == Len(trail) < MaxSteps /\ (SetFact \/ Tell)
Spec == Init /\ [][Next]_vars
\* a description tells all that was known when it was made and nothing else
LastSet(k, x) == LET S == {j \in 1..(k - 1) : trail[j][1] = "set" /\ trail[j][2] = x}
                 IN IF S = {} THEN First[x] ELSE trail[CHOOSE j \in S : \A i \in S : i <= j][3]
Tells == {k \in 1..Len(trail) : trail[k][1] = "tell"}
Complete == \A k \in Tells : LET d == made[Cardinality({j \in Tells : j <= k})]
                             IN /\ DOMAIN d = {x \in Names : LastSet(k, x) # "unset"}
                                /\ \A x \in DOMAIN d : d[x] = LastSet(k, x)
\* descriptions never change
Kept == [][\A k \in 1..Len(made) : made'[k] = made[k]]_vars
Emit == /\ made # <<>> /\ trail[Len(trail)][1] = "tell" => PrintT("@@" \o ToJson([trail |-> trail, made |-> made]))
==============================================================================
