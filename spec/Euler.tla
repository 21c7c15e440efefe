-------------------------------- MODULE Euler --------------------------------
(* One ideal source observed at a growing set of points.  The gradient at     *)
(* each point is free (Euler's equation only ties the field to it), so the    *)
(* cases cover every homogeneous field, not only 1/r^n:                       *)
(*     (x - s) . grad f = eta (b - f)                                         *)
(* All numbers are integers: gradients are multiples of eta.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points,    \* observation points available
          Grads,     \* gradients available (before multiplying by eta)
          Sources, Bases, Indices, Count
VARIABLES src, base, eta, obs     \* obs: sequence of [x, g, f]
vars == <<src, base, eta, obs>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scaled(k, a) == <<k * a[1], k * a[2], k * a[3]>>
\* f = b - (x - s).g with gradient eta g
Field(x, g) == base - Dot(Minus(x, src), g)
Init == src \in Sources /\ base \in Bases /\ eta \in Indices /\ obs = <<>>
Used == {obs[k].x : k \in 1..Len(obs)}
Observe == /\ Len(obs) < Count /\ UNCHANGED <<src, base, eta>>
           /\ \E x \in Points \ Used, g \in Grads : obs' = Append(obs, [x |-> x, g |-> Scaled(eta, g), f |-> Field(x, g)])
Spec == Init /\ [][Observe]_vars

\* the linear system: row = (g, eta), right-hand side = x.g + eta f
Row(o) == <<o.g[1], o.g[2], o.g[3], eta>>
Rhs(o) == Dot(o.x, o.g) + eta * o.f
Euler == \A k \in 1..Len(obs) : Dot(Minus(obs[k].x, src), obs[k].g) = eta * (base - obs[k].f)
\* the true parameters solve every row, hence the normal equations
Exact == \A k \in 1..Len(obs) : LET r == Row(obs[k]) IN r[1] * src[1] + r[2] * src[2] + r[3] * src[3] + r[4] * base = Rhs(obs[k])
\* translation of the frame moves the solution with it and changes no field value
Translated == \A t \in {<<5, -3, 2>>} : \A k \in 1..Len(obs) :
   LET o == obs[k] x2 == <<o.x[1] + t[1], o.x[2] + t[2], o.x[3] + t[3]>> s2 == <<src[1] + t[1], src[2] + t[2], src[3] + t[3]>>
   IN Dot(x2, o.g) + eta * o.f = o.g[1] * s2[1] + o.g[2] * s2[2] + o.g[3] * s2[3] + eta * base
\* determinant of the normal matrix: the solution is unique when it is not zero
H(i, j) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Row(obs[k])[i] * Row(obs[k])[j] + S(k - 1) IN S(Len(obs))
Det3(m, r, c) == LET a(i, j) == m[r[i]][c[j]] IN
   a(1,1) * (a(2,2) * a(3,3) - a(2,3) * a(3,2)) - a(1,2) * (a(2,1) * a(3,3) - a(2,3) * a(3,1)) + a(1,3) * (a(2,1) * a(3,2) - a(2,2) * a(3,1))
Hm == [i \in 1..4 |-> [j \in 1..4 |-> H(i, j)]]
Det4(m) == m[1][1] * Det3(m, <<2,3,4>>, <<2,3,4>>) - m[1][2] * Det3(m, <<2,3,4>>, <<1,3,4>>)
           + m[1][3] * Det3(m, <<2,3,4>>, <<1,2,4>>) - m[1][4] * Det3(m, <<2,3,4>>, <<1,2,3>>)
Unique == Det4(Hm) # 0
\* fewer than four independent observations never determine the source
Rank == Len(obs) < 4 => ~Unique
Emit == Len(obs) = Count => PrintT("@@" \o ToJson([src |-> src, base |-> base, eta |-> eta, obs |-> obs, unique |-> Unique]))
==============================================================================
