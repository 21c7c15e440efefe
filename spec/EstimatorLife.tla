---------------------------- MODULE EstimatorLife ----------------------------
(* The life of an estimator.  What it answers only depends on what it was     *)
(* last fitted with (data and the parameters at that moment); asking it       *)
(* questions never changes it, and before the first fit it refuses to answer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Data,      \* labels of data sets
          Damps, Places,   \* labels of the parameters
          MaxOps
VARIABLES params, fitted, trail, owned   \* owned: the caller has not yet changed the arrays of the last fit
vars == <<params, fitted, trail, owned>>
Asks == {"predict", "grid", "profile", "score", "jacobian", "memory", "params", "repr"}
NeedFit == {"predict", "grid", "profile", "score"}
None == [data |-> "none"]
Init == params \in [damping : Damps, place : Places] /\ fitted = None /\ trail = <<<<"start", params>>>> /\ owned = TRUE
Can == Len(trail) <= MaxOps
Log(x) == Can /\ trail' = Append(trail, x)
Fit == \E d \in Data : fitted' = [data |-> d, damping |-> params.damping, place |-> params.place] /\ owned' = TRUE /\ UNCHANGED params /\ Log(<<"fit", d>>)
\* data that do not belong to the coordinates, or weights of another size
BadFit == \E w \in {"data", "weights", "coordinates"} : UNCHANGED <<params, fitted, owned>> /\ Log(<<"bad fit", w>>)
Ask == \E a \in Asks : UNCHANGED <<params, fitted, owned>> /\ Log(<<IF a \in NeedFit /\ fitted = None THEN "refused" ELSE "ask", a>>)
Set == \/ \E v \in Damps \ {params.damping} : params' = [params EXCEPT !.damping = v] /\ UNCHANGED <<fitted, owned>> /\ Log(<<"set damping", v>>)
       \/ \E v \in Places \ {params.place} : params' = [params EXCEPT !.place = v] /\ UNCHANGED <<fitted, owned>> /\ Log(<<"set place", v>>)
Clone == fitted' = None /\ UNCHANGED <<params, owned>> /\ Log(<<"clone">>)
Copy == UNCHANGED <<params, fitted, owned>> /\ Log(<<"deep copy">>)
\* the caller reuses the arrays given to the last fit
Reuse == fitted # None /\ owned /\ owned' = FALSE /\ UNCHANGED <<params, fitted>> /\ Log(<<"reuse arrays">>)
Next == Fit \/ BadFit \/ Ask \/ Set \/ Clone \/ Copy \/ Reuse
Spec == Init /\ [][Next]_vars
Op(t) == t[Len(t)][1]
Quiet == [][Op(trail') \in {"ask", "refused", "bad fit", "reuse arrays", "deep copy"} => fitted' = fitted /\ params' = params]_vars
\* the fit recorded is the last one of the history, with the parameters set until then
LastSet(n, k, at) == LET S == {i \in 1..at : trail[i][1] = n} IN IF S = {} THEN trail[1][2][k] ELSE trail[CHOOSE i \in S : \A j \in S : j <= i][2]
Fits == {i \in 1..Len(trail) : trail[i][1] \in {"fit", "clone"}}
LastFit == LET i == CHOOSE i \in Fits : \A j \in Fits : j <= i IN
   IF Fits = {} THEN fitted = None
   ELSE IF trail[i][1] = "clone" THEN fitted = None
   ELSE fitted = [data |-> trail[i][2], damping |-> LastSet("set damping", "damping", i), place |-> LastSet("set place", "place", i)]
Emit == Len(trail) > 2 => PrintT("@@" \o ToJson([trail |-> trail, fitted |-> fitted, params |-> params]))
==============================================================================
