------------------------------ MODULE SourceFit ------------------------------
(* The fitted estimator as a function: predictions are sums of coefficients   *)
(* over distances, and the coefficients solve the damped weighted least       *)
(* squares problem.  The equations are terms; TLC checks on integer matrices  *)
(* that they characterise the minimum, and walks over every configuration.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Values, MaxChanges
VARIABLES c,        \* configuration of an estimator
          q         \* a small least squares problem on integers, or <<>>
vars == <<c, q>>
Options == [kind |-> {"cartesian", "gb", "sph"},
            points |-> {"below", "blocks", "custom few", "custom many", "custom integer"},
            weights |-> {"none", "ones", "spread", "minute", "zeros", "integer"},
            damping |-> {"none", "tiny", "one", "large"},
            shape |-> {"line", "grid", "one", "two"},
            dtype |-> {"float64", "float32", "int64", "int32"},   \* of the coordinates and data
            work |-> {"float64", "float32"},                      \* type asked from the estimator
            parallel |-> {TRUE, FALSE},
            extra |-> {0, 1}]                                     \* additional coordinates, which are ignored
Base == [kind |-> "cartesian", points |-> "below", weights |-> "none", damping |-> "none", shape |-> "line", dtype |-> "float64", work |-> "float64", parallel |-> TRUE, extra |-> 0]
Fields == DOMAIN Base
Possible(x) == /\ ~(x.kind = "sph" /\ (x.work # "float64" \/ x.points = "blocks"))
               /\ (x.points = "blocks" => x.shape \in {"line", "grid"})
               /\ (x.weights = "zeros" => x.shape \in {"line", "grid"})
Changed(x) == Cardinality({f \in Fields \ {"kind"} : x[f] # Base[f]})
\* ---- least squares on integers: rows <<a1, a2>> with weight w and datum d, unknowns x; damping k in units s1, s2 (squares)
Res(r, x) == r[4] - r[1] * x[1] - r[2] * x[2]
RECURSIVE Cost(_, _)
Cost(rows, x) == IF rows = <<>> THEN 0 ELSE Head(rows)[3] * Res(Head(rows), x) * Res(Head(rows), x) + Cost(Tail(rows), x)
Full(p, x) == Cost(p.rows, x) + p.k * (p.s[1] * x[1] * x[1] + p.s[2] * x[2] * x[2])
RECURSIVE Grad(_, _, _)
Grad(rows, x, j) == IF rows = <<>> THEN 0 ELSE Head(rows)[3] * Head(rows)[j] * Res(Head(rows), x) + Grad(Tail(rows), x, j)
Normal(p, x) == \A j \in 1..2 : Grad(p.rows, x, j) = p.k * p.s[j] * x[j]
Near == {<<i, j>> : i \in -2..2, j \in -2..2}
Problems == [rows : {<<r, t, u>> : r \in Values, t \in Values, u \in Values}, k : {0, 1, 2}, s : {<<1, 3>>, <<2, 2>>}]
Init == \/ c \in {[Base EXCEPT !.kind = k] : k \in Options.kind} /\ q = <<>>
        \/ c = <<>> /\ q \in Problems
Change == /\ c # <<>> /\ Changed(c) < MaxChanges /\ UNCHANGED q
          /\ \E f \in Fields \ {"kind"} : c[f] = Base[f] /\ \E v \in Options[f] \ {Base[f]} : c' = [c EXCEPT ![f] = v] /\ Possible(c')
Spec == Init /\ [][Change]_vars
\* the normal equations hold exactly where the cost cannot be lowered
Minimum == q # <<>> => \A x \in Near : Normal(q, x) => \A y \in {<<x[1] + d[1], x[2] + d[2]>> : d \in Near} : Full(q, y) >= Full(q, x)
\* and where they do not hold half the gradient is a direction of descent: some problem tells them apart
Sharp == q # <<>> => \A x \in Near : ~Normal(q, x) =>
   \E y \in {<<x[1] + d[1], x[2] + d[2]>> : d \in Near} : LET s(j) == Grad(q.rows, x, j) - q.k * q.s[j] * x[j] IN s(1) * (y[1] - x[1]) + s(2) * (y[2] - x[2]) > 0
\* ---- terms
Distance(sys) == IF sys = "cartesian" THEN Hyp(Sub(V("x"), V("x0")), Sub(V("y"), V("y0")), Sub(V("z"), V("z0")))
   ELSE LET D == Div(Pi, N(180)) la == Mul(V("y"), D) lb == Mul(V("y0"), D) dl == Mul(Sub(V("x"), V("x0")), D)
        \* (r - r0)^2 + 4 r r0 (sin^2(dlat/2) + cos cos sin^2(dlon/2))
            h == Add(Sq(Sin(Mul(Q(1, 2), Sub(la, lb)))), Mul3(Cos(la), Cos(lb), Sq(Sin(Mul(Q(1, 2), dl)))))
        IN Sqrt(Add(Sq(Sub(V("z"), V("z0"))), Mul(N(4), Mul3(V("z"), V("z0"), h))))
Green(sys) == Div(N(1), Distance(sys))
\* one term of the gradient of source j: weight A_ij residual_i, and the damping k s_j^2 c_j with s_j the spread of column j
Gradient == Mul3(V("w"), V("A"), V("res"))
Damp == Mul3(V("k"), Sq(V("s")), V("c"))
Emit == /\ c # <<>> => PrintT("@@" \o ToJson([case |-> c]))
        /\ (c # <<>> /\ c = Base) => PrintT("@@" \o ToJson([kind |-> "def", cartesian |-> Green("cartesian"), spherical |-> Green("spherical"), gradient |-> Gradient, damp |-> Damp]))
==============================================================================
