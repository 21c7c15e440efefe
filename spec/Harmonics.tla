------------------------------ MODULE Harmonics ------------------------------
(* Spherical harmonics of a potential field.  A harmonic has a degree, an     *)
(* order and a kind (g: cosine, h: sine of the longitude).  The point where   *)
(* it is looked at is mirrored at the equator and turned by quarters of a     *)
(* turn; the field there is a combination of the fields of the two kinds at   *)
(* the original point.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, Terms
CONSTANTS MaxDegree, MaxMoves
VARIABLES n, m, kind, moves, mix, flips
vars == <<n, m, kind, moves, mix, flips>>
\* mix = <<a, b>>: field of the harmonic at the moved point = a * (field of g at the point) + b * (field of h at the point)
\* flips = <<e, nn, u>>: signs of the east, north and up components of that relation
Turned(x) == CASE m % 4 = 0 -> x [] m % 4 = 1 -> <<x[2], -x[1]>> [] m % 4 = 2 -> <<-x[1], -x[2]>> [] OTHER -> <<-x[2], x[1]>>
Parity == IF (n + m) % 2 = 0 THEN 1 ELSE -1
Init == /\ n \in 1..MaxDegree /\ m \in 0..n /\ kind \in (IF m = 0 THEN {"g"} ELSE {"g", "h"})
        /\ moves = <<>> /\ mix = (IF kind = "g" THEN <<1, 0>> ELSE <<0, 1>>) /\ flips = <<1, 1, 1>>
\* cos m(l + 90) and sin m(l + 90) as combinations of cos ml and sin ml: quarter turns of the pair
Turn == Len(moves) < MaxMoves /\ moves' = Append(moves, "turn") /\ mix' = Turned(mix) /\ UNCHANGED <<n, m, kind, flips>>
\* the potential is even or odd about the equator; the northward derivative changes its sign once more
Mirror == Len(moves) < MaxMoves /\ moves' = Append(moves, "mirror") /\ flips' = <<flips[1] * Parity, -flips[2] * Parity, flips[3] * Parity>> /\ UNCHANGED <<n, m, kind, mix>>
Spec == Init /\ [][Turn \/ Mirror]_vars
Count(x) == LET RECURSIVE C(_) C(k) == IF k = 0 THEN 0 ELSE C(k - 1) + (IF moves[k] = x THEN 1 ELSE 0) IN C(Len(moves))
\* ---- invariants
Start == IF kind = "g" THEN <<1, 0>> ELSE <<0, 1>>
FullTurn == Count("turn") % 4 = 0 => mix = Start
HalfTurn == Count("turn") % 4 = 2 => mix = <<(IF m % 2 = 0 THEN 1 ELSE -1) * Start[1], (IF m % 2 = 0 THEN 1 ELSE -1) * Start[2]>>
TwoMirrors == Count("mirror") % 2 = 0 => flips = <<1, 1, 1>>
Zonal == m = 0 => mix = Start
Size == mix[1] * mix[1] + mix[2] * mix[2] = 1
\* ---- closed forms (see Legendre.tla): x = cos of the colatitude, u = its sine, rho = reference radius / radius
X == V("x")
U == V("u")
RECURSIVE Lead(_, _)
\* (2n)! / (2^n n! (n - m)!) times the Schmidt factor sqrt((2 - delta) (n - m)! / (n + m)!), as a product of small numbers
Lead(k, acc) == IF k > n THEN acc ELSE Lead(k + 1, Mul(acc, Q(n + k, 2)))
RECURSIVE OverFact(_, _)
OverFact(k, acc) == IF k < 2 THEN acc ELSE OverFact(k - 1, Mul(acc, Q(1, k)))
RECURSIVE Norm(_, _)
Norm(k, acc) == IF k > n + m THEN acc ELSE Norm(k + 1, Mul(acc, Q(1, k)))
Leading == Mul(OverFact(n - m, Lead(1, N(1))), Sqrt(Norm(n - m + 1, N(IF m = 0 THEN 1 ELSE 2))))
\* coefficients relative to the leading one, highest power first
RECURSIVE Coef(_)
Coef(k) == IF k = 0 THEN N(1) ELSE Mul(Coef(k - 1), Q(-(n - 2 * k + 2 - m) * (n - 2 * k + 1 - m), 2 * k * (2 * n - 2 * k + 1)))
Powers == (n - m) \div 2
\* p >= 0: x^p
XP(p) == Pow(X, p)
Poly == Mul(Leading, Sum([k \in 1..(Powers + 1) |-> Mul(Coef(k - 1), XP(n - m - 2 * (k - 1)))]))
DPoly == Mul(Leading, Sum([k \in 1..(Powers + 1) |-> IF n - m - 2 * (k - 1) = 0 THEN N(0) ELSE Mul3(N(n - m - 2 * (k - 1)), Coef(k - 1), XP(n - m - 2 * (k - 1) - 1))]))
P == Mul(Pow(U, m), Poly)
\* m P / u and dP/dtheta have no division left: they also hold at the poles
POverU == IF m = 0 THEN N(0) ELSE Mul3(N(m), Pow(U, m - 1), Poly)
DP == LET b == Neg(Mul(Pow(U, m + 1), DPoly)) IN IF m = 0 THEN b ELSE Add(Mul(X, POverU), b)
C == Cos(Mul(N(m), V("lon")))
S == Sin(Mul(N(m), V("lon")))
Along == IF kind = "g" THEN C ELSE S
Across == IF kind = "g" THEN S ELSE Neg(C)
Potential == Mul3(Pow(V("rho"), n + 1), Along, P)              \* times the reference radius
East == Mul3(Pow(V("rho"), n + 2), Across, POverU)
North == Mul3(Pow(V("rho"), n + 2), Along, DP)
Radial == Mul3(Mul(N(n + 1), Pow(V("rho"), n + 2)), Along, P)
\* what is left at a pole
PoleEast == m = 1
PoleUp == m = 0
Emit == /\ moves = <<>> => PrintT("@@" \o ToJson([what |-> "harmonic", n |-> n, m |-> m, kind |-> kind, potential |-> Potential, east |-> East, north |-> North, radial |-> Radial,
                                                 poleeast |-> PoleEast, poleup |-> PoleUp]))
        /\ moves # <<>> => PrintT("@@" \o ToJson([what |-> "moved", n |-> n, m |-> m, kind |-> kind, moves |-> moves, mix |-> mix, flips |-> flips]))
==============================================================================
