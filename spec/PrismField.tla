---------------------------- MODULE PrismField ----------------------------
(* Fields of a homogeneous right rectangular prism: case analysis of the     *)
(* position of the observation point, closed forms, singular points.         *)
(*                                                                           *)
(* Along each axis the observation point is at one of                        *)
(*   0 below   1 on the lower face plane   2 between   3 on the upper face   *)
(*   plane   4 above                                                         *)
(* i.e. 125 relative positions.  Axes 1,2,3 = easting, northing, upward.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

GravFields == {"potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"}
MagFields  == {"b_e", "b_n", "b_u"}
Tensor     == {"g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"}
Axes(f) ==
  CASE f = "potential" -> <<>>
    [] f = "g_e" -> <<1>> [] f = "g_n" -> <<2>> [] f = "g_z" -> <<3>>
    [] f = "g_ee" -> <<1,1>> [] f = "g_nn" -> <<2,2>> [] f = "g_zz" -> <<3,3>>
    [] f = "g_en" -> <<1,2>> [] f = "g_ez" -> <<1,3>> [] f = "g_nz" -> <<2,3>>
    [] f = "b_e" -> <<1>> [] f = "b_n" -> <<2>> [] f = "b_u" -> <<3>>
UnitExp(f) == IF f \in MagFields THEN 9 ELSE
              CASE Len(Axes(f)) = 0 -> 0 [] Len(Axes(f)) = 1 -> 5 [] OTHER -> 9
ZSign(f) == IF Cardinality({i \in 1..Len(Axes(f)) : Axes(f)[i] = 3}) % 2 = 1 THEN -1 ELSE 1

\* ------------------------------------------------------------ case analysis
Pos == 0..4
AxisState(p) == IF p \in {0, 4} THEN "out" ELSE IF p \in {1, 3} THEN "face" ELSE "in"
Faces(p)  == {k \in 1..3 : AxisState(p[k]) = "face"}
Outs(p)   == {k \in 1..3 : AxisState(p[k]) = "out"}
Region(p) == IF Outs(p) # {} THEN "outside"
             ELSE CASE Cardinality(Faces(p)) = 0 -> "interior"
                    [] Cardinality(Faces(p)) = 1 -> "face"
                    [] Cardinality(Faces(p)) = 2 -> "edge"
                    [] OTHER -> "vertex"
\* direction an edge point's edge is parallel to
EdgeDir(p) == CHOOSE k \in 1..3 : k \notin Faces(p)
\* where the gravity tensor does not exist
SingularG(f, p) ==
  /\ f \in Tensor
  /\ \/ Region(p) = "vertex"
     \/ /\ Region(p) = "edge"
        /\ IF Axes(f)[1] = Axes(f)[2] THEN EdgeDir(p) # Axes(f)[1]
           ELSE EdgeDir(p) \notin {Axes(f)[1], Axes(f)[2]}
\* magnetic field: undefined on edges, vertices and inside (documented: NaN)
SingularM(p) == Region(p) \in {"vertex", "edge", "interior"}
\* a tensor component jumps across the faces normal to it: the outside limit is specified
Jumps(f, p) == f \in Tensor /\ Region(p) = "face" /\ Axes(f)[1] = Axes(f)[2] /\ Axes(f)[1] \in Faces(p)
\* value of the trace in units of -4 pi G rho: 1 inside, 0 outside; on faces the component normal
\* to the face is the outside limit, so the trace is 0
TraceUnits(p) == IF Region(p) = "interior" THEN 1 ELSE 0

\* ------------------------------------------------------------- closed forms
\* corner - observation differences; side 1 = lower, 2 = upper
X(k, c) == V(<<<<"x1","x2">>, <<"y1","y2">>, <<"z1","z2">>>>[k][c])
Corners == {<<a, b, c>> : a \in 1..2, b \in 1..2, c \in 1..2}
CSign(c) == IF (c[1] + c[2] + c[3]) % 2 = 0 THEN 1 ELSE -1   \* upper,upper,upper = +
Rad(c) == Hyp(X(1, c[1]), X(2, c[2]), X(3, c[3]))
Others(k) == CASE k = 1 -> <<2, 3>> [] k = 2 -> <<3, 1>> [] k = 3 -> <<1, 2>>
LL(k, c) == LET o == Others(k) IN LnPlus(X(k, c[k]), Add(Sq(X(o[1], c[o[1]])), Sq(X(o[2], c[o[2]]))))
AA(k, c) == LET o == Others(k) IN
            AtanQ(Mul(X(o[1], c[o[1]]), X(o[2], c[o[2]])), Mul(X(k, c[k]), Rad(c)))
\* same with the outside limit on the face normal to k: the lower face is approached with positive
\* difference, the upper face with negative difference
AAout(k, c) == LET o == Others(k) IN
            <<"atanside", Mul(X(o[1], c[o[1]]), X(o[2], c[o[2]])), Mul(X(k, c[k]), Rad(c)),
              IF c[k] = 1 THEN 1 ELSE -1>>
XX(k, c) == X(k, c[k])
PotC(c) == <<"add",
   Mul3(XX(1,c), XX(2,c), LL(3,c)), Mul3(XX(2,c), XX(3,c), LL(1,c)), Mul3(XX(3,c), XX(1,c), LL(2,c)),
   Mul3(Q(-1,2), Sq(XX(1,c)), AA(1,c)), Mul3(Q(-1,2), Sq(XX(2,c)), AA(2,c)), Mul3(Q(-1,2), Sq(XX(3,c)), AA(3,c))>>
GradC(k, c) == LET o == Others(k) IN
   Neg(<<"add", Mul(XX(o[1],c), LL(o[2],c)), Mul(XX(o[2],c), LL(o[1],c)), Neg(Mul(XX(k,c), AA(k,c)))>>)
HessC(i, j, c) == IF i = j THEN Neg(AAout(i, c)) ELSE LL(6 - i - j, c)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
CornerSeq == SetSeq(Corners)
Kernel(f, c) ==
  LET a == Axes(f) IN
  CASE Len(a) = 0 -> PotC(c) [] Len(a) = 1 -> GradC(a[1], c) [] OTHER -> HessC(a[1], a[2], c)
FieldT(f) == [n \in 1..8 |-> Times(ZSign(f) * CSign(CornerSeq[n]),
                Mul3(V("G"), V("rho"), Kernel(f, CornerSeq[n])))]
M(j) == V(<<"me", "mn", "mu">>[j])
MagT(f) == LET i == Axes(f)[1] IN
  [n \in 1..8 |-> Times(CSign(CornerSeq[n]),
     Mul(Div(V("mu0"), Mul(N(4), Pi)),
         <<"add", Mul(HessC(i,1,CornerSeq[n]), M(1)), Mul(HessC(i,2,CornerSeq[n]), M(2)),
                  Mul(HessC(i,3,CornerSeq[n]), M(3))>>))]

\* --------------------------------------------------------------------- model
VARIABLES field, pos, phase
vars == <<field, pos, phase>>
Init == field \in GravFields \cup MagFields /\ pos = <<0, 0, 0>> /\ phase = "field"
Place == phase = "field" /\ phase' = "placed" /\ UNCHANGED field /\ pos' \in Pos \X Pos \X Pos
\* slide the observation point along one axis: fields exist continuously unless a face normal to the component is crossed
Spec == Init /\ [][Place]_vars

\* mirroring the prism and the point about a plane preserves the classification
Mir(p, k) == [p EXCEPT ![k] = 4 - @]
InvMirror == phase = "placed" => \A k \in 1..3 :
   /\ Region(Mir(pos, k)) = Region(pos)
   /\ (field \in Tensor => SingularG(field, Mir(pos, k)) = SingularG(field, pos))
   /\ SingularM(Mir(pos, k)) = SingularM(pos)
\* potential and acceleration exist everywhere; every tensor component is singular somewhere;
\* outside the closed prism nothing is singular
InvExists == phase = "placed" =>
   /\ (field \notin Tensor => ~SingularG(field, pos))
   /\ (Region(pos) = "outside" => ~SingularG(field, pos) /\ ~SingularM(pos))
   /\ (Region(pos) \in {"face", "interior"} => ~SingularG(field, pos))
\* at an edge exactly the diagonal component along the edge and the two mixed components with it exist
InvEdge == (phase = "placed" /\ Region(pos) = "edge") =>
   Cardinality({f \in Tensor : ~SingularG(f, pos)}) = 3
InvVertex == (phase = "placed" /\ Region(pos) = "vertex") => \A f \in Tensor : SingularG(f, pos)

Emit ==
  /\ (phase = "field" /\ field \in GravFields) =>
       PrintT("@@" \o ToJson([kind |-> "def", field |-> field, corners |-> FieldT(field), unit |-> UnitExp(field)]))
  /\ (phase = "field" /\ field \in MagFields) =>
       PrintT("@@" \o ToJson([kind |-> "mdef", field |-> field, corners |-> MagT(field), unit |-> 9]))
  /\ (phase = "placed") =>
       PrintT("@@" \o ToJson([kind |-> IF field \in GravFields THEN "case" ELSE "mcase", field |-> field, pos |-> pos,
            region |-> Region(pos), trace |-> TraceUnits(pos), jumps |-> Jumps(field, pos),
            singular |-> IF field \in GravFields THEN SingularG(field, pos) ELSE SingularM(pos)]))
============================================================================
