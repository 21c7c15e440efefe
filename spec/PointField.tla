---------------------------- MODULE PointField ----------------------------
(* Newtonian point mass and magnetic dipole: closed forms, signs, units.     *)
(*                                                                           *)
(* Axes 1,2,3 = easting, northing, upward.  The documented z axis of every   *)
(* gravity component points DOWN, so a field contributes one sign per "z" in *)
(* its name.  Units: potential SI, first derivatives mGal (1e5), second      *)
(* derivatives Eotvos (1e9), magnetic field nT (1e9).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS Range,     \* integer offsets of the observation point along each axis
          Masses     \* integer strengths

\* ---------------------------------------------------------------- gravity
GravFields == {"potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz",
               "g_en", "g_ne", "g_ez", "g_ze", "g_nz", "g_zn"}
AxisOf == [e |-> 1, n |-> 2, z |-> 3]
Axes(f) ==
  CASE f = "potential" -> <<>>
    [] f = "g_e" -> <<1>> [] f = "g_n" -> <<2>> [] f = "g_z" -> <<3>>
    [] f = "g_ee" -> <<1,1>> [] f = "g_nn" -> <<2,2>> [] f = "g_zz" -> <<3,3>>
    [] f \in {"g_en", "g_ne"} -> <<1,2>>
    [] f \in {"g_ez", "g_ze"} -> <<1,3>>
    [] f \in {"g_nz", "g_zn"} -> <<2,3>>
UnitExp(f) == CASE Len(Axes(f)) = 0 -> 0 [] Len(Axes(f)) = 1 -> 5 [] OTHER -> 9
\* one factor -1 per downward axis in the name
ZSign(f) == IF Cardinality({i \in 1..Len(Axes(f)) : Axes(f)[i] = 3}) % 2 = 1 THEN -1 ELSE 1

\* Integer numerator and power of the distance of the field in the upward frame,
\* d = observation - source: V = 1/r, dV/dx_i = -d_i/r^3, d2V/dx_i dx_j = (3 d_i d_j - delta_ij r^2)/r^5
R2(d) == d[1]*d[1] + d[2]*d[2] + d[3]*d[3]
Num(f, d) ==
  LET a == Axes(f) IN
  CASE Len(a) = 0 -> 1
    [] Len(a) = 1 -> -d[a[1]]
    [] OTHER -> 3 * d[a[1]] * d[a[2]] - (IF a[1] = a[2] THEN R2(d) ELSE 0)
RPow(f) == 1 + 2 * Len(Axes(f))
Numerator(f, d) == ZSign(f) * Num(f, d)

\* the same thing as a term for the harness (variables dx, dy, dz, m, G)
D(i) == V(<<"dx", "dy", "dz">>[i])
R2T  == Add3(Sq(D(1)), Sq(D(2)), Sq(D(3)))
NumT(f) ==
  LET a == Axes(f) IN
  CASE Len(a) = 0 -> N(1)
    [] Len(a) = 1 -> Neg(D(a[1]))
    [] OTHER -> Sub(Mul3(N(3), D(a[1]), D(a[2])), IF a[1] = a[2] THEN R2T ELSE N(0))
FieldT(f) == Times(ZSign(f), Mul3(V("G"), V("m"), Div(NumT(f), Pow(Sqrt(R2T), RPow(f)))))

\* ------------------------------------------------- spherical geocentric frame
\* position = radius * (cos lat cos lon, cos lat sin lon, sin lat); potential 1/l, downward = -radial derivative
Deg(x) == Div(Mul(V(x), Pi), N(180))
CosPsi == Add(Mul(Sin(Deg("lat")), Sin(Deg("latp"))),
              Mul3(Cos(Deg("lat")), Cos(Deg("latp")), Cos(Sub(Deg("lon"), Deg("lonp")))))
\* chord^2 written without cancellation: (r-r')^2 + 4 r r' (sin^2(dlat/2) + cos cos sin^2(dlon/2))
Half(x, y) == Div(Sub(Deg(x), Deg(y)), N(2))
L2T == Add(Sq(Sub(V("r"), V("rp"))),
           Mul3(N(4), Mul(V("r"), V("rp")),
                Add(Sq(Sin(Half("lat", "latp"))),
                    Mul3(Cos(Deg("lat")), Cos(Deg("latp")), Sq(Sin(Half("lon", "lonp")))))))
SphFields == {"potential", "g_z"}
SphT(f) == IF f = "potential" THEN Mul3(V("G"), V("m"), Div(N(1), Sqrt(L2T)))
           ELSE Mul3(V("G"), V("m"), Div(Sub(V("r"), Mul(V("rp"), CosPsi)), Pow(Sqrt(L2T), 3)))
SphUnsupported == {"g_e", "g_n"}
SphUnknown == GravFields \ (SphFields \cup SphUnsupported)

\* ---------------------------------------------------------- magnetic dipole
\* B_i = mu0/(4 pi) * sum_j (3 d_i d_j - delta_ij r^2) m_j / r^5
MagFields == {"b_e", "b_n", "b_u"}
MagAxis(f) == CASE f = "b_e" -> 1 [] f = "b_n" -> 2 [] f = "b_u" -> 3
TNum(i, j, d) == 3 * d[i] * d[j] - (IF i = j THEN R2(d) ELSE 0)
MagT(f) ==
  LET i == MagAxis(f)
      M(j) == V(<<"me", "mn", "mu">>[j])
      T(j) == Mul(Sub(Mul3(N(3), D(i), D(j)), IF i = j THEN R2T ELSE N(0)), M(j))
  IN Mul(Div(V("mu0"), Mul(N(4), Pi)), Div(Add3(T(1), T(2), T(3)), Pow(Sqrt(R2T), 5)))

\* ------------------------------------------------------------------- model
Offsets == (Range \X Range \X Range) \ {<<0, 0, 0>>}
VARIABLES field, off, mass, phase
vars == <<field, off, mass, phase>>
Init == /\ field \in GravFields \cup MagFields
        /\ off = <<0, 0, 0>> /\ mass = 0 /\ phase = "field"
\* choose a geometry, then mirror it axis by axis: the parity of each field is part of the model
Choose == phase = "field" /\ phase' = "placed" /\ UNCHANGED field
          /\ \E o \in Offsets, m \in Masses : off' = o /\ mass' = m
Spec == Init /\ [][Choose]_vars

\* ---------------------------------------------------------------- invariants
\* trace of the gradient tensor vanishes, symmetric aliases agree, parity under mirroring
InvTrace == phase = "placed" =>
  Numerator("g_ee", off) + Numerator("g_nn", off) + Numerator("g_zz", off) = 0
InvAlias == phase = "placed" =>
  /\ Numerator("g_en", off) = Numerator("g_ne", off)
  /\ Numerator("g_ez", off) = Numerator("g_ze", off)
  /\ Numerator("g_nz", off) = Numerator("g_zn", off)
Mirror(d, k) == [d EXCEPT ![k] = -@]
Par(f, k) == IF Cardinality({i \in 1..Len(Axes(f)) : Axes(f)[i] = k}) % 2 = 1 THEN -1 ELSE 1
InvParity == (phase = "placed" /\ field \in GravFields) =>
  \A k \in 1..3 : Numerator(field, Mirror(off, k)) = Par(field, k) * Numerator(field, off)
\* a mass below the observation point attracts downward: g_z > 0
InvDown == (phase = "placed" /\ off[3] > 0) => Numerator("g_z", off) > 0
\* the dipole interaction is symmetric and trace free
InvDipole == phase = "placed" =>
  /\ TNum(1,1,off) + TNum(2,2,off) + TNum(3,3,off) = 0
  /\ \A i, j \in 1..3 : TNum(i, j, off) = TNum(j, i, off)

\* ------------------------------------------------------------------- output
Isqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
Emit == 
  /\ (phase = "field" /\ field \in GravFields) =>
       PrintT("@@" \o ToJson([kind |-> "def", field |-> field, term |-> FieldT(field),
                              unit |-> UnitExp(field), zsign |-> ZSign(field)]))
  /\ (phase = "field" /\ field \in GravFields) =>
       PrintT("@@" \o ToJson([kind |-> "sph", field |-> field, unit |-> UnitExp(field),
                status |-> IF field \in SphFields THEN "ok" ELSE IF field \in SphUnsupported THEN "unsupported" ELSE "unknown",
                term |-> IF field \in SphFields THEN SphT(field) ELSE N(0)]))
  /\ (phase = "field" /\ field \in MagFields) =>
       PrintT("@@" \o ToJson([kind |-> "mdef", field |-> field, term |-> MagT(field), unit |-> 9]))
  /\ (phase = "placed" /\ field \in GravFields) =>
       PrintT("@@" \o ToJson([kind |-> "case", field |-> field, off |-> off, mass |-> mass,
                              num |-> mass * Numerator(field, off), r2 |-> R2(off), rpow |-> RPow(field)]))
  /\ (phase = "placed" /\ field \in MagFields) =>
       PrintT("@@" \o ToJson([kind |-> "mcase", field |-> field, off |-> off, r2 |-> R2(off),
                              nums |-> <<TNum(MagAxis(field), 1, off), TNum(MagAxis(field), 2, off),
                                         TNum(MagAxis(field), 3, off)>>]))
============================================================================
