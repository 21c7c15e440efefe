---------------------------- MODULE EllipsoidBody ----------------------------
(* One ellipsoidal body, described in different ways: semiaxes e[1..3] along  *)
(* the columns of the rotation m, and a susceptibility tensor x in the frame  *)
(* of the semiaxes.  Renaming axes and turning the frame describes the same   *)
(* body.  The closed form of the fields is written as terms.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Lengths, Tensors, MaxSteps
VARIABLES e, m, x, steps
vars == <<e, m, x, steps>>
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
MM(p, q) == [i \in 1..3 |-> [j \in 1..3 |-> p[i][1] * q[1][j] + p[i][2] * q[2][j] + p[i][3] * q[3][j]]]
TT(p) == [i \in 1..3 |-> [j \in 1..3 |-> p[j][i]]]
Det(p) == p[1][1] * (p[2][2] * p[3][3] - p[2][3] * p[3][2]) - p[1][2] * (p[2][1] * p[3][3] - p[2][3] * p[3][1]) + p[1][3] * (p[2][1] * p[3][2] - p[2][2] * p[3][1])
Perms == {f \in [1..3 -> 1..3] : {f[1], f[2], f[3]} = {1, 2, 3}}
Frames == {p \in {[i \in 1..3 |-> [j \in 1..3 |-> IF f[i] = j THEN s[i] ELSE 0]] : f \in Perms, s \in [1..3 -> {-1, 1}]} : Det(p) = 1}
Init == e \in Lengths /\ m = I3 /\ x \in Tensors /\ steps = 0
\* describe the body with the frame m p instead of m
Describe == steps < MaxSteps /\ steps' = steps + 1 /\ \E p \in Frames :
   /\ m' = MM(m, p)
   /\ e' = [k \in 1..3 |-> e[CHOOSE j \in 1..3 : p[j][k] # 0]]
   /\ x' = MM(TT(p), MM(x, p))
Spec == Init /\ [][Describe]_vars
Diag(d) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN d[i] * d[i] ELSE 0]]
Shape == MM(m, MM(Diag(e), TT(m)))
Chi == MM(m, MM(x, TT(m)))
SameBody == [][Shape' = Shape /\ Chi' = Chi]_vars
Proper == Det(m) = 1 /\ MM(m, TT(m)) = I3
\* ------------------------------------------------------------ closed form
\* coordinates x1 x2 x3 in the frame of the semiaxes e1 e2 e3; l is 0 inside and the largest root of Confocal outside
Ax == <<"e1", "e2", "e3">>
Cx == <<"x1", "x2", "x3">>
E2(i) == Add(Sq(V(Ax[i])), V("l"))
Confocal == Sub(Add3(Div(Sq(V("x1")), E2(1)), Div(Sq(V("x2")), E2(2)), Div(Sq(V("x3")), E2(3))), N(1))
Other(i) == IF i = 1 THEN <<2, 3>> ELSE IF i = 2 THEN <<1, 3>> ELSE <<1, 2>>
\* A_i = integral from l to infinity of du / ((e_i^2 + u) sqrt((e1^2+u)(e2^2+u)(e3^2+u)))
A(i) == Mul(Q(2, 3), Rd(E2(Other(i)[1]), E2(Other(i)[2]), E2(i)))
Vol == Mul3(V("e1"), V("e2"), V("e3"))
Gravity(i) == Mul(Mul3(N(-2), Pi, Vol), Mul3(Mul(V("G"), V("rho")), V(Cx[i]), A(i)))
\* demagnetizing field of the magnetization M (components M1 M2 M3): h_i = -(e1 e2 e3 / 2) (M_i A_i + sum_j M_j x_j dA_j/dl dl/dx_i)
Root3 == Sqrt(Mul3(E2(1), E2(2), E2(3)))
DA(i) == Neg(Div(Div(N(1), E2(i)), Root3))
Norm2 == Add3(Sq(Div(V("x1"), E2(1))), Sq(Div(V("x2"), E2(2))), Sq(Div(V("x3"), E2(3))))
DL(i) == Div(Mul(N(2), Div(V(Cx[i]), E2(i))), Norm2)
Mc == <<"M1", "M2", "M3">>
Sigma == Sum([j \in 1..3 |-> Mul3(V(Mc[j]), V(Cx[j]), DA(j))])
HOut(i) == Mul(Mul(Q(-1, 2), Vol), Add(Mul(V(Mc[i]), A(i)), Mul(Sigma, DL(i))))
HIn(i) == Mul(Mul(Q(-1, 2), Vol), Mul(V(Mc[i]), A(i)))
\* demagnetization factors of the body (l = 0): their sum is 1
Factor(i) == Mul(Mul(Q(1, 2), Vol), A(i))
\* the magnetization solves M = chi (H0 - N M) + remanent
Three(Op(_)) == <<Op(1), Op(2), Op(3)>>
Emit == /\ PrintT("@@" \o ToJson([e |-> e, m |-> m, x |-> x, shape |-> Shape, chi |-> Chi, steps |-> steps]))
        /\ (steps = 0 /\ e = (CHOOSE q \in Lengths : TRUE) /\ x = (CHOOSE q \in Tensors : TRUE)) =>
           PrintT("@@" \o ToJson([kind |-> "def", confocal |-> Confocal, gravity |-> Three(Gravity), outside |-> Three(HOut), inside |-> Three(HIn), factor |-> Three(Factor)]))
==============================================================================
