------------------------------ MODULE PrismMesh ------------------------------
(* An unstructured mesh built prism by prism: one hexahedron per prism, in    *)
(* order, its corners in the order VTK expects (bottom face counterclockwise  *)
(* seen from above, then the top face), one property value per cell.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bounds,    \* available <<w, e, s, n, b, t>>
          Values, MaxPrisms
VARIABLES prisms, props
vars == <<prisms, props>>
Init == prisms = <<>> /\ props = <<>>
Add == Len(prisms) < MaxPrisms /\ \E p \in Bounds, v \in Values : prisms' = Append(prisms, p) /\ props' = Append(props, v)
Spec == Init /\ [][Add]_vars
Face(p, z) == << <<p[1], p[3], z>>, <<p[2], p[3], z>>, <<p[2], p[4], z>>, <<p[1], p[4], z>> >>
Corners(p) == Face(p, p[5]) \o Face(p, p[6])
Points == LET RECURSIVE C(_) C(s) == IF s = <<>> THEN <<>> ELSE Corners(Head(s)) \o C(Tail(s)) IN C(prisms)
Cells == [k \in 1..Len(prisms) |-> [j \in 1..8 |-> 8 * (k - 1) + j - 1]]
Volume(p) == (p[2] - p[1]) * (p[4] - p[3]) * (p[6] - p[5])
\* signed volume from the corners: edges 1-2, 1-4, 1-5
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Oriented == \A k \in 1..Len(prisms) :
   LET q == [j \in 1..8 |-> Points[Cells[k][j] + 1]]
   IN Det(Minus(q[2], q[1]), Minus(q[4], q[1]), Minus(q[5], q[1])) = Volume(prisms[k])
AllCorners == \A k \in 1..Len(prisms) : {Points[Cells[k][j] + 1] : j \in 1..8} =
   {<<prisms[k][a], prisms[k][b], prisms[k][c]>> : a \in {1, 2}, b \in {3, 4}, c \in {5, 6}}
OwnPoints == \A a, b \in 1..Len(prisms) : a # b => {Cells[a][j] : j \in 1..8} \cap {Cells[b][j] : j \in 1..8} = {}
Emit == prisms # <<>> => PrintT("@@" \o ToJson([prisms |-> prisms, props |-> props,
          corners |-> [k \in 1..Len(prisms) |-> Corners(prisms[k])], volumes |-> [k \in 1..Len(prisms) |-> Volume(prisms[k])]]))
==============================================================================
