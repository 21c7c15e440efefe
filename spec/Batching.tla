------------------------------ MODULE Batching ------------------------------
(* How the same observation points can be handed to a forward model.         *)
(*                                                                           *)
(* A coordinate is a buffer of memory cells seen through a layout (shape,    *)
(* strides, offset), as in numpy: the logical element <<i1, .., in>> is the   *)
(* cell  off + i1*st1 + ... .  The three coordinates of a call may have       *)
(* different layouts, may be stretched along axes (stride 0), and may have    *)
(* fewer axes.  Specification of every forward model: the logical element    *)
(* idx of the result is F(x[idx], y[idx], z[idx]) and nothing else, whatever  *)
(* the layouts are and whatever was called before.                           *)
(*                                                                           *)
(* The machine below is the way a model goes through the points (ravel in     *)
(* row-major order, fill a flat result one point at a time, reshape): TLC     *)
(* checks that it computes the specified result for every combination.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,      \* set of shapes (sequences of sizes)
          Kinds,       \* containers: "array", "list", "int", "series", ...
          Free         \* number of coordinates with a free layout (the others are contiguous)

VARIABLES shape, coords, flat, i, phase
vars == <<shape, coords, flat, i, phase>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}

\* strides of a buffer whose axes are stored in the order perm (last of perm runs fastest), every step cells
RECURSIVE StrideFrom(_, _, _, _)
StrideFrom(s, perm, k, step) == IF k = Len(s) THEN step ELSE s[perm[k + 1]] * StrideFrom(s, perm, k + 1, step)
Layouts(s) ==
  LET n == Len(s) IN
  { [bc |-> bc, rev |-> rev, perm |-> perm, step |-> step] :
      bc \in SUBSET (1..n), rev \in SUBSET (1..n), perm \in Perms(n), step \in {1, 2} }
\* sizes actually stored: stretched axes hold one cell
Stored(s, l) == [k \in 1..Len(s) |-> IF k \in l.bc THEN 1 ELSE s[k]]
PosOf(perm, k) == CHOOSE j \in 1..Len(perm) : perm[j] = k
Strides(s, l) ==
  [k \in 1..Len(s) |-> IF k \in l.bc THEN 0
     ELSE StrideFrom(Stored(s, l), l.perm, PosOf(l.perm, k), l.step) * (IF k \in l.rev THEN -1 ELSE 1)]
Offset(s, l) ==
  LET st == Strides(s, l)
      f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF st[k] < 0 THEN -st[k] * (s[k] - 1) ELSE 0)
  IN f[Len(s)]
Cells(s, l) == Prod(Stored(s, l)) * l.step

\* row-major position -> logical index (from 0), and address of a logical index
RECURSIVE Unravel(_, _)
Unravel(s, p) == IF s = <<>> THEN <<>> ELSE <<p \div Prod(Tail(s))>> \o Unravel(Tail(s), p % Prod(Tail(s)))
Address(s, l, idx) ==
  LET st == Strides(s, l)
      f[k \in 0..Len(s)] == IF k = 0 THEN Offset(s, l) ELSE f[k - 1] + st[k] * idx[k]
  IN f[Len(s)]
\* the caller's coordinate c at the logical index idx
At(c, idx) == Address(shape, coords[c], idx)
Default(s) == [bc |-> {}, rev |-> {}, perm |-> [k \in 1..Len(s) |-> k], step |-> 1]

Init == /\ shape \in Shapes /\ coords = <<>> /\ flat = <<>> /\ i = 0 /\ phase = "layout"
PickCoord ==
  /\ phase = "layout" /\ Len(coords) < 3
  /\ \/ \E l \in Layouts(shape) : Len(coords) < Free /\ coords' = Append(coords, l)
     \/ Len(coords) >= Free /\ coords' = Append(coords, Default(shape))
  /\ phase' = IF Len(coords) = 2 THEN "kind" ELSE "layout"
  /\ UNCHANGED <<shape, flat, i>>
Ravel == /\ phase = "kind" /\ phase' = "loop" /\ i' = 0 /\ flat' = <<>> /\ UNCHANGED <<shape, coords>>
Compute == /\ phase = "loop" /\ i < Prod(shape)
           /\ LET idx == Unravel(shape, i) IN flat' = Append(flat, <<At(1, idx), At(2, idx), At(3, idx)>>)
           /\ i' = i + 1 /\ UNCHANGED <<shape, coords, phase>>
Reshape == phase = "loop" /\ i = Prod(shape) /\ phase' = "done" /\ UNCHANGED <<shape, coords, flat, i>>
Next == PickCoord \/ Ravel \/ Compute \/ Reshape
Spec == Init /\ [][Next]_vars

Indices == {Unravel(shape, p) : p \in 0..(Prod(shape) - 1)}
RECURSIVE RowMajor(_, _)
RowMajor(s, idx) == IF s = <<>> THEN 0 ELSE Head(idx) * Prod(Tail(s)) + RowMajor(Tail(s), Tail(idx))
\* the reshaped flat result at a logical index is the function of the coordinates at that index
PointWise == phase = "done" => \A idx \in Indices : flat[RowMajor(shape, idx) + 1] = <<At(1, idx), At(2, idx), At(3, idx)>>
InBounds == phase = "done" => \A c \in 1..3 : \A idx \in Indices : At(c, idx) >= 0 /\ At(c, idx) < Cells(shape, coords[c])
Distinct == phase = "done" => \A c \in 1..3 : coords[c].bc = {} => Cardinality({At(c, idx) : idx \in Indices}) = Prod(shape)
Out(c) == [strides |-> Strides(shape, coords[c]), off |-> Offset(shape, coords[c]), cells |-> Cells(shape, coords[c])]
\* the container a coordinate travels in is derived from the case so that every kind meets every layout
Emit == phase = "done" =>
  \A kind \in Kinds : PrintT("@@" \o ToJson([shape |-> shape, coords |-> <<Out(1), Out(2), Out(3)>>, kind |-> kind, table |-> flat]))
=============================================================================
