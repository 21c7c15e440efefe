------------------------------ MODULE Legendre ------------------------------
(* Associated Legendre functions without the Condon-Shortley phase:           *)
(*   P_n^m(x) = u^m Q_n^m(x),  u = sqrt(1 - x^2),  Q_n^m = d^m P_n / dx^m     *)
(* The table is walked by two moves: one degree up (Bonnet's recursion of the *)
(* Legendre polynomials) and one order up (a derivative).  Polynomials are    *)
(* sequences of integers, lowest power first, scaled by 2^n.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxDegree
VARIABLES n, m, q, last  \* last: the polynomial of degree n - 1 (order 0)
vars == <<n, m, q, last>>
At(p, k) == IF k >= 1 /\ k <= Len(p) THEN p[k] ELSE 0
\* (n + 1) P_{n+1} = (2n + 1) x P_n - n P_{n-1}, in scaled integers: the division is exact
Up(p, before, d) == [k \in 1..(d + 2) |-> (2 * (2 * d + 1) * At(p, k - 1) - 4 * d * At(before, k)) \div (d + 1)]
Exact(p, before, d) == \A k \in 1..(d + 2) : (2 * (2 * d + 1) * At(p, k - 1) - 4 * d * At(before, k)) % (d + 1) = 0
Diff(p) == IF Len(p) <= 1 THEN <<0>> ELSE [k \in 1..(Len(p) - 1) |-> k * p[k + 1]]
Init == n = 0 /\ m = 0 /\ q = <<1>> /\ last = <<0>>
DegreeUp == m = 0 /\ n < MaxDegree /\ n' = n + 1 /\ q' = Up(q, last, n) /\ last' = q /\ m' = 0
OrderUp == m < n /\ m' = m + 1 /\ q' = Diff(q) /\ UNCHANGED <<n, last>>
Spec == Init /\ [][DegreeUp \/ OrderUp]_vars
RECURSIVE Pow(_, _), Value(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Value(p, x) == IF p = <<>> THEN 0 ELSE p[1] + x * Value(Tail(p), x)
\* ---- what the table satisfies
Integral == (m = 0 /\ n < MaxDegree) => Exact(q, last, n)
Order == Len(q) = n - m + 1 /\ q[Len(q)] # 0
\* parity of n - m
Parity == \A k \in 1..Len(q) : (k - 1) % 2 # (n - m) % 2 => q[k] = 0
\* the differential equation: (1 - x^2) Q'' - 2 (m + 1) x Q' + (n (n + 1) - m (m + 1)) Q = 0
Equation == \A k \in 1..Len(q) :
    At(Diff(Diff(q)), k) - (k - 1) * (k - 2) * q[k] - 2 * (m + 1) * (k - 1) * q[k] + (n * (n + 1) - m * (m + 1)) * q[k] = 0
\* values at the ends: P_n(1) = 1, and each order multiplies by (n - m)(n + m + 1) / (2 (m + 1))
End == /\ m = 0 => Value(q, 1) = Pow(2, n)
       /\ Value(Diff(q), 1) * (2 * (m + 1)) = Value(q, 1) * ((n - m) * (n + m + 1))
OtherEnd == Value(q, -1) = (IF (n - m) % 2 = 0 THEN 1 ELSE -1) * Value(q, 1)
\* the closed form, checked through the ratio of neighbouring coefficients
Ratio == \A k \in 0..((n - m - 2) \div 2) : LET hi == n - m - 2 * k + 1
                                          IN (n - m - 2 * k >= 2) => q[hi - 2] * (2 * (k + 1) * (2 * n - 2 * k - 1)) = -q[hi] * (n - 2 * k - m) * (n - 2 * k - m - 1)
\* squared normalization factors: Schmidt (2 - delta) / ((n - m + 1) ... (n + m)), full (2n + 1) times that
Emit == PrintT("@@" \o ToJson([n |-> n, m |-> m, q |-> q, scale |-> Pow(2, n), num |-> IF m = 0 THEN 1 ELSE 2, first |-> n - m + 1, final |-> n + m]))
==============================================================================
