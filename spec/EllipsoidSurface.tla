--------------------------- MODULE EllipsoidSurface ---------------------------
(* The surface of an ellipsoid as it is drawn.  A body (semiaxes, quarter     *)
(* turns of yaw, pitch and roll, centre) is changed by assignments and its    *)
(* surface asked for in between.  On grids of longitudes and latitudes in     *)
(* steps of a quarter turn the points are exact integers; in general they are *)
(* terms.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Lengths, Turns, Centers, LonSizes, LatSizes, MaxOps
VARIABLES body,     \* [len, turn, cen], each of three integers
          trail,    \* what was done, with what was answered
          drawn     \* the surfaces handed out
vars == <<body, trail, drawn>>
MM(p, q) == [i \in 1..3 |-> [j \in 1..3 |-> p[i][1] * q[1][j] + p[i][2] * q[2][j] + p[i][3] * q[3][j]]]
TT(p) == [i \in 1..3 |-> [j \in 1..3 |-> p[j][i]]]
C4(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
S4(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
Rz(q) == <<<<C4(q), -S4(q), 0>>, <<S4(q), C4(q), 0>>, <<0, 0, 1>>>>
\* a positive pitch lifts the easting side
Ry(q) == <<<<C4(q), 0, -S4(q)>>, <<0, 1, 0>>, <<S4(q), 0, C4(q)>>>>
Rx(q) == <<<<1, 0, 0>>, <<0, C4(q), -S4(q)>>, <<0, S4(q), C4(q)>>>>
Rot(b) == MM(Rz(b.turn[1]), MM(Ry(b.turn[2]), Rx(b.turn[3])))
\* quarter of the longitude of column j of n, and of the latitude of row i of n (-1, 0 or 1)
LonQ(j, n) == IF n = 1 THEN 0 ELSE (4 * (j - 1)) \div (n - 1)
LatQ(i, n) == IF n = 1 THEN -1 ELSE (2 * (i - 1)) \div (n - 1) - 1
Local(b, u, w) == <<b.len[1] * C4(u) * C4(w), b.len[2] * S4(u) * C4(w), b.len[3] * S4(w)>>
Place(b, p) == [k \in 1..3 |-> b.cen[k] + Rot(b)[k][1] * p[1] + Rot(b)[k][2] * p[2] + Rot(b)[k][3] * p[3]]
Surface(b, nlon, nlat) == [i \in 1..nlat |-> [j \in 1..nlon |-> Place(b, Local(b, LonQ(j, nlon), LatQ(i, nlat)))]]
Init == /\ \E l \in Lengths, t \in Turns, c \in Centers : body = [len |-> l, turn |-> t, cen |-> c]
        /\ trail = <<[op |-> "new", body |-> body]>> /\ drawn = <<>>
Room == Len(trail) <= MaxOps
Set(k, part, v) == /\ Room /\ body[part][k] # v
                   /\ body' = [body EXCEPT ![part][k] = v]
                   /\ trail' = Append(trail, [op |-> "set", part |-> part, k |-> k, v |-> v]) /\ UNCHANGED drawn
Move(c) == /\ Room /\ body.cen # c /\ body' = [body EXCEPT !.cen = c]
           /\ trail' = Append(trail, [op |-> "move", v |-> c]) /\ UNCHANGED drawn
Draw(nlon, nlat) == /\ Room /\ drawn' = Append(drawn, [b |-> body, s |-> Surface(body, nlon, nlat)])
                    /\ trail' = Append(trail, [op |-> "draw", lon |-> nlon, lat |-> nlat, s |-> Surface(body, nlon, nlat)])
                    /\ UNCHANGED body
Next == \/ \E k \in 1..3 : \/ \E v \in {l[k] : l \in Lengths} : Set(k, "len", v)
                           \/ \E v \in {t[k] : t \in Turns} : Set(k, "turn", v)
        \/ \E c \in Centers : Move(c)
        \/ \E n \in LonSizes, m \in LatSizes : Draw(n, m)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
Back(b, p) == LET d == [k \in 1..3 |-> p[k] - b.cen[k]] r == TT(Rot(b)) IN [k \in 1..3 |-> r[k][1] * d[1] + r[k][2] * d[2] + r[k][3] * d[3]]
Sq3(v) == v * v
OnSurface(b, p) == LET q == Back(b, p) l == b.len IN
   Sq3(q[1] * l[2] * l[3]) + Sq3(q[2] * l[1] * l[3]) + Sq3(q[3] * l[1] * l[2]) = Sq3(l[1] * l[2] * l[3])
Points(s) == {s[i][j] : i \in 1..Len(s), j \in 1..Len(s[1])}
AllOn == \A n \in 1..Len(drawn) : \A p \in Points(drawn[n].s) : OnSurface(drawn[n].b, p)
\* meridians close, and the first and last rows are the ends of the third semiaxis
Closed == \A n \in 1..Len(drawn) : LET s == drawn[n].s b == drawn[n].b IN \A i \in 1..Len(s) :
   /\ Len(s[i]) > 1 => s[i][1] = s[i][Len(s[i])]
   /\ \A j \in 1..Len(s[i]) : s[1][j] = Place(b, <<0, 0, -b.len[3]>>) /\ (Len(s) > 1 => s[Len(s)][j] = Place(b, <<0, 0, b.len[3]>>))
\* every end of every semiaxis is drawn with steps of a quarter turn
Ends(b) == {Place(b, [k \in 1..3 |-> IF k = a THEN sg * b.len[k] ELSE 0]) : a \in 1..3, sg \in {-1, 1}}
Covers == \A n \in 1..Len(drawn) : LET s == drawn[n].s IN (Len(s) = 3 /\ Len(s[1]) = 5) => Points(s) = Ends(drawn[n].b)
Proper == MM(Rot(body), TT(Rot(body))) = <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
KeepsDrawn == [][\A n \in 1..Len(drawn) : drawn'[n] = drawn[n]]_vars
\* ------------------------------------------------------------ in general: i and j count from 0
Lon == Div(Mul3(N(2), Pi, V("j")), Sub(V("nlon"), N(1)))
Lat == Sub(Div(Mul(Pi, V("i")), Sub(V("nlat"), N(1))), Div(Pi, N(2)))
General == <<Mul3(V("a"), Cos(Lon), Cos(Lat)), Mul3(V("b"), Sin(Lon), Cos(Lat)), Mul(V("c"), Sin(Lat))>>
Emit == /\ Len(trail) = MaxOps + 1 => PrintT("@@" \o ToJson([trail |-> trail]))
        /\ (Len(trail) = 1 /\ body = [len |-> CHOOSE l \in Lengths : TRUE, turn |-> CHOOSE t \in Turns : TRUE, cen |-> CHOOSE c \in Centers : TRUE]) =>
             PrintT("@@" \o ToJson([kind |-> "def", general |-> General, volume |-> Mul(Q(4, 3), Mul(Pi, Mul3(V("a"), V("b"), V("c"))))]))
==============================================================================
