----------------------------- MODULE Discretize -----------------------------
(* Adaptive discretization of one tesseroid for one observation point.        *)
(* A piece is a box of the dyadic tree over the tesseroid: for each axis      *)
(* (1 longitude, 2 latitude, 3 radius) <<level, index>>.  Whether a piece is  *)
(* too large along an axis is decided by geometry (terms below); the process  *)
(* may examine pending pieces in any order.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Axes,      \* axes that may be divided
          MaxLevel, Limit
VARIABLES pending, leaves, need, status
vars == <<pending, leaves, need, status>>
Root == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>
Opts(n, a, A) == IF a \in A THEN {<<n[a][1] + 1, 2 * n[a][2]>>, <<n[a][1] + 1, 2 * n[a][2] + 1>>} ELSE {n[a]}
Children(n, A) == Opts(n, 1, A) \X Opts(n, 2, A) \X Opts(n, 3, A)
Init == pending = {Root} /\ leaves = {} /\ need = [n \in {} |-> {}] /\ status = "run"
Process(n, A) ==
  /\ need' = [m \in DOMAIN need \cup {n} |-> IF m = n THEN A ELSE need[m]]
  /\ IF A = {}
     THEN IF Cardinality(leaves) + 1 > Limit
          THEN status' = "refused" /\ UNCHANGED <<pending, leaves>>
          ELSE /\ leaves' = leaves \cup {n} /\ pending' = pending \ {n}
               /\ status' = IF pending = {n} THEN "done" ELSE "run"
     ELSE /\ pending' = (pending \ {n}) \cup Children(n, A) /\ UNCHANGED <<leaves, status>>
Next == status = "run" /\ \E n \in pending : \E A \in SUBSET {a \in Axes : n[a][1] < MaxLevel} : Process(n, A)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------------------------------------- properties
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
Size(n) == Two(3 * MaxLevel - n[1][1] - n[2][1] - n[3][1])
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Size(x) + Total(S \ {x})
\* the pieces always cover the whole tesseroid, without overlap
Overlap1(p, q) == IF p[1] >= q[1] THEN p[2] \div Two(p[1] - q[1]) = q[2] ELSE q[2] \div Two(q[1] - p[1]) = p[2]
Overlap(m, n) == \A a \in 1..3 : Overlap1(m[a], n[a])
Partition == /\ Total(pending \cup leaves) = Two(3 * MaxLevel)
             /\ \A m, n \in pending \cup leaves : m # n => ~Overlap(m, n)
OnlyNeeded == \A n \in pending \cup leaves : \A a \in 1..3 : n[a][1] > 0 => a \in Axes
LeavesFine == \A n \in leaves : need[n] = {}
RECURSIVE Closed(_)
Closed(n) == IF need[n] = {} THEN {n} ELSE UNION {Closed(m) : m \in Children(n, need[n])}
\* whatever the order, the result is the set of first pieces that are small enough
Confluent == status = "done" => leaves = Closed(Root)
Capacity == Cardinality(leaves) <= Limit /\ (status = "refused" => Cardinality(leaves) = Limit)
Ends == <>(status # "run")
\* ---------------------------------------------------------------- geometry
Rad(x) == Div(Mul(x, Pi), N(180))
Mid(a, b) == Div(Add(V(a), V(b)), N(2))
\* distance between the observation point (lon, lat, r) and a point (lonp, latp, rp)
CosPsi(lon, lat, lonp, latp) == Add(Mul(Sin(Rad(lat)), Sin(Rad(latp))), Mul3(Cos(Rad(lat)), Cos(Rad(latp)), Cos(Rad(Sub(lonp, lon)))))
Dist2(lon, lat, r, lonp, latp, rp) == Add(Sq(Sub(r, rp)), Mul3(N(2), Mul(r, rp), Sub(N(1), CosPsi(lon, lat, lonp, latp))))
Distance == Sqrt(Dist2(V("lon"), V("lat"), V("r"), Mid("w", "e"), Mid("s", "n"), Mid("b", "t")))
\* arc lengths at the outer radius: along the great circle through both sides at the middle latitude, along the meridian, and radially
\* sin(arc / 2) = cos(middle latitude) sin(half width); wider than half a turn counts as half a turn
HalfWidth == Div(Rad(Sub(V("e"), V("w"))), N(2))
SinHalf == Mul(Cos(Rad(Mid("s", "n"))), <<"ite", Sub(HalfWidth, Div(Pi, N(2))), N(1), Sin(HalfWidth)>>)
LenLon == Mul3(N(2), V("t"), Atan2(SinHalf, Sqrt(Abs(Sub(N(1), Sq(SinHalf))))))
LenLat == Mul(V("t"), Rad(Sub(V("n"), V("s"))))
LenRad == Sub(V("t"), V("b"))
RatioPotential == Q(1, 1)
RatioGz == Q(5, 2)
\* fields of a mass element of unit density at (lonp, latp, rp) per d(lon) d(lat) d(r)
Cell == Mul3(V("G"), Sq(V("rp")), Cos(Rad(V("latp"))))
D2 == Dist2(V("lon"), V("lat"), V("r"), V("lonp"), V("latp"), V("rp"))
KPotential == Div(Cell, Sqrt(D2))
KGz == Mul(N(100000), Div(Mul(Cell, Sub(V("r"), Mul(V("rp"), CosPsi(V("lon"), V("lat"), V("lonp"), V("latp"))))), Pow(Sqrt(D2), 3)))
\* wider than half a turn: always too wide
Wide == Sub(Sub(V("e"), V("w")), N(180))
Emit == (pending = {Root}) => PrintT("@@" \o ToJson([kind |-> "def", wide |-> Wide, distance |-> Distance, lon |-> LenLon, lat |-> LenLat, rad |-> LenRad,
           ratio |-> [potential |-> RatioPotential, g_z |-> RatioGz], kernel |-> [potential |-> KPotential, g_z |-> KGz]]))
=============================================================================
