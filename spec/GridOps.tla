------------------------------- MODULE GridOps -------------------------------
(* The container of a grid going through transformations: dimensions, sizes,  *)
(* directions and origins of the coordinates, additional coordinates, padding *)
(* and what is refused.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Names, MaxSteps
VARIABLES grid, trail, outcome, first
vars == <<grid, trail, outcome, first>>
FftOps == {"up", "cont", "low", "high", "pole", "east-fft", "north-fft"}
FdOps == {"east", "north"}
Mixed == {"tga", "tilt"}
Ops == FftOps \cup FdOps \cup Mixed
Pads == {"default", "none", "width", "uneven-width", "one-side", "constant", "reflect", "zero-width"}
Directions == {<<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>}
\* height: on the whole grid, epoch: a single value, station: along the first dimension
Extras == SUBSET {"height", "epoch", "station"}
Kinds == {"good", "nan", "nan-corner", "uneven-y", "uneven-x", "line", "cube"}
Init == /\ grid \in [size : Sizes, dims : Names, dir : Directions, extras : Extras, kind : Kinds, int : BOOLEAN]
        /\ (grid.kind # "good" => grid.size = CHOOSE s \in Sizes : \A q \in Sizes : s[1] >= q[1])
        /\ trail = <<>> /\ outcome = "ok" /\ first = grid.extras
\* the Fourier transform needs two evenly spaced dimensions without gaps; finite differences only a grid
\* with a single coordinate along the direction of the derivative
Along(o) == "station" \in grid.extras /\ o \in {"north"} \cup Mixed
Refuses(o) == \/ o \notin FdOps /\ grid.kind # "good"
              \/ Along(o)
\* 1D and 3D arrays have no easting and northing for finite differences either
Undefined(o) == o \in FdOps /\ grid.kind \in {"line", "cube"}
Result(g, o) == [g EXCEPT !.extras = IF o = "cont" THEN {} ELSE @, !.int = FALSE]
Apply(o, p) == /\ Len(trail) < MaxSteps /\ outcome = "ok" /\ ~Undefined(o)
               /\ trail' = Append(trail, [op |-> o, pad |-> p]) /\ UNCHANGED first
               /\ IF Refuses(o) THEN outcome' = "refused" /\ UNCHANGED grid
                  ELSE outcome' = "ok" /\ grid' = Result(grid, o)
Next == \E o \in Ops, p \in Pads : Apply(o, p)
Spec == Init /\ [][Next]_vars
\* whatever is done, the nodes of the grid stay where they are
Nodes == [][grid'.size = grid.size /\ grid'.dims = grid.dims /\ grid'.dir = grid.dir /\ grid'.kind = grid.kind]_vars
NoNewExtras == [][grid'.extras \subseteq grid.extras]_vars
OnlyBadRefused == outcome = "refused" => grid.kind # "good" \/ "station" \in grid.extras
Emit == trail # <<>> => PrintT("@@" \o ToJson([grid |-> grid, first |-> first, trail |-> trail, outcome |-> outcome]))
==============================================================================
