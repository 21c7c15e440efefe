------------------------------ MODULE GridCalls ------------------------------
(* Asking a fitted estimator for a grid or a profile.  A prediction is known  *)
(* by the point it is made at: a result is right when every node carries the  *)
(* prediction made at its own (projected) place and height.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,        \* "plain", "boosted", "sph"
          Easts, Norths, \* sequences of coordinates
          Extras        \* sets of further arguments of grid
VARIABLES call, answer
vars == <<call, answer>>
Projections == {"none", "scaled", "swapped", "mirrored"}
\* the projection of a point and its inverse
Proj(p, c) == CASE p = "none" -> c [] p = "scaled" -> <<2 * c[1], 3 * c[2]>> [] p = "swapped" -> <<c[2] + 100, c[1]>> [] p = "mirrored" -> <<-c[1], c[2] - 7>>
Back(p, c) == CASE p = "none" -> c [] p = "scaled" -> <<c[1] \div 2, c[2] \div 3>> [] p = "swapped" -> <<c[2], c[1] - 100>> [] p = "mirrored" -> <<-c[1], c[2] + 7>>
Deprecated == {"upward", "shape", "region", "spacing"}
Height(i, j) == 40 + 10 * i + j
\* -------------------------------------------------------------- grids
GridCall == [m : {"grid"}, kind : Kinds, e : Easts, n : Norths, form : {"1d", "2d"}, proj : Projections, dims : BOOLEAN, names : BOOLEAN, extra : Extras, fitted : BOOLEAN]
\* the spherical estimator has no projections: one that is given is an argument without effect
Given(c) == c.extra \cup (IF c.kind = "sph" /\ c.proj # "none" THEN {"projection"} ELSE {})
Effective(c) == IF c.kind = "sph" THEN "none" ELSE c.proj
Outcome(c) == IF Given(c) \cap Deprecated # {} THEN "ValueError" ELSE IF ~c.fitted THEN "NotFittedError" ELSE "grid"
Warns(c) == Outcome(c) # "ValueError" /\ Given(c) # {}
Node(c, i, j) == [at |-> Proj(Effective(c), <<c.e[j], c.n[i]>>), up |-> Height(i, j)]
Grid(c) == [i \in 1..Len(c.n) |-> [j \in 1..Len(c.e) |-> Node(c, i, j)]]
\* -------------------------------------------------------------- profiles
Ends == {<<<<0, 0>>, <<12, 0>>>>, <<<<-6, 4>>, <<12, -8>>>>, <<<<6, 6>>, <<-18, 30>>>>, <<<<0, 12>>, <<0, -12>>>>}
ProfileCall == [m : {"profile"}, kind : Kinds, ends : Ends, size : {2, 3, 4, 7}, proj : Projections, dims : BOOLEAN, names : BOOLEAN, extra : {{}, {"extra_coords"}}, fitted : BOOLEAN, up : {5, 80}]
Step(c, k) == LET a == Proj(c.proj, c.ends[1]) b == Proj(c.proj, c.ends[2]) IN
   <<a[1] + ((k - 1) * (b[1] - a[1])) \div (c.size - 1), a[2] + ((k - 1) * (b[2] - a[2])) \div (c.size - 1)>>
Len2(u, v) == (u[1] - v[1]) * (u[1] - v[1]) + (u[2] - v[2]) * (u[2] - v[2])
\* the point, its coordinates in the table, the square of the distance from the first one
Row(c, k) == [at |-> Step(c, k), shown |-> Back(c.proj, Step(c, k)), d2 |-> Len2(Step(c, k), Step(c, 1))]
POutcome(c) == IF c.kind = "sph" THEN "NotImplementedError" ELSE IF ~c.fitted THEN "NotFittedError" ELSE "table"
Profile(c) == [k \in 1..c.size |-> Row(c, k)]
\* --------------------------------------------------------------
Calls == GridCall \cup ProfileCall \cup [m : {"scatter"}, kind : Kinds, fitted : BOOLEAN]
Answer(c) == CASE c.m = "grid" -> [outcome |-> Outcome(c), warns |-> Warns(c), nodes |-> IF Outcome(c) = "grid" THEN Grid(c) ELSE <<>>]
               [] c.m = "profile" -> [outcome |-> POutcome(c), warns |-> FALSE, nodes |-> IF POutcome(c) = "table" THEN Profile(c) ELSE <<>>]
               [] c.m = "scatter" -> [outcome |-> "NotImplementedError", warns |-> FALSE, nodes |-> <<>>]
Init == call \in Calls /\ answer = [outcome |-> "pending", warns |-> FALSE, nodes |-> <<>>]
Do == answer.outcome = "pending" /\ answer' = Answer(call) /\ UNCHANGED call
Spec == Init /\ [][Do]_vars
\* -------------------------------------------------------------- properties
IsGrid == answer.outcome = "grid"
\* a node shows the inverse of the place its prediction is made at, and different nodes are different places
OwnPlace == IsGrid => \A i \in 1..Len(call.n), j \in 1..Len(call.e) : Back(Effective(call), answer.nodes[i][j].at) = <<call.e[j], call.n[i]>>
Distinct == IsGrid => Cardinality({answer.nodes[i][j].at : i \in 1..Len(call.n), j \in 1..Len(call.e)}) = Len(call.n) * Len(call.e)
\* a profile starts and ends at its ends, in even steps
EvenSteps == answer.outcome = "table" =>
   LET r == answer.nodes IN
   /\ r[1].shown = call.ends[1] /\ r[Len(r)].shown = call.ends[2]
   /\ \A k \in 2..Len(r) : Len2(r[k].at, r[k - 1].at) = Len2(r[2].at, r[1].at)
   /\ \A k \in 1..Len(r) : r[k].d2 = (k - 1) * (k - 1) * Len2(r[2].at, r[1].at)
NeverSilent == answer.outcome = "grid" /\ ~answer.warns => Given(call) = {}
Emit == answer.outcome # "pending" => PrintT("@@" \o ToJson([call |-> call, answer |-> answer]))
==============================================================================
