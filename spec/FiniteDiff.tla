----------------------------- MODULE FiniteDiff -----------------------------
(* Finite-difference derivatives of a profile: central differences inside     *)
(* (second order on uneven coordinates), one-sided at the two ends.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Values, Steps, Lengths
VARIABLES f, x
vars == <<f, x>>
\* slope at k as a fraction <<num, den>>
Slope(q, p, k) ==
  IF k = 1 THEN <<q[2] - q[1], p[2] - p[1]>>
  ELSE IF k = Len(q) THEN <<q[k] - q[k - 1], p[k] - p[k - 1]>>
  ELSE LET hs == p[k] - p[k - 1] hd == p[k + 1] - p[k]
       IN <<hs * hs * q[k + 1] + (hd * hd - hs * hs) * q[k] - hd * hd * q[k - 1], hs * hd * (hs + hd)>>
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Init == f = <<>> /\ x = <<>>
\* grow a profile point by point; all steps of a profile have the same sign
Grow == /\ Len(f) < CHOOSE m \in Lengths : \A l \in Lengths : l <= m
        /\ \E v \in Values, s \in Steps :
             /\ f' = Append(f, v)
             /\ x' = Append(x, IF x = <<>> THEN 0 ELSE x[Len(x)] + s)
             /\ (Len(x) >= 2) => ((x[2] - x[1]) * s > 0)
             /\ (x = <<>>) => (s = CHOOSE t \in Steps : TRUE)
Spec == Init /\ [][Grow]_vars
n == Len(f)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
\* traversing the profile backwards gives the same slopes
Mirror == n >= 2 => \A k \in 1..n : Eq(Slope(f, x, k), Slope(Rev(f), Rev(x), n + 1 - k))
\* exact for straight lines everywhere and for parabolas inside
Line == n >= 2 => LET g == [k \in 1..n |-> 3 * x[k] - 2] IN \A k \in 1..n : Eq(Slope(g, x, k), <<3, 1>>)
Parabola == n >= 3 => LET g == [k \in 1..n |-> x[k] * x[k]] IN \A k \in 2..(n - 1) : Eq(Slope(g, x, k), <<2 * x[k], 1>>)
Linear == n >= 2 => LET g == [k \in 1..n |-> 2 * f[k] + x[k]] IN
          \A k \in 1..n : LET a == Slope(f, x, k) IN Eq(Slope(g, x, k), <<2 * a[1] + a[2], a[2]>>)
Emit == n \in Lengths => PrintT("@@" \o ToJson([f |-> f, x |-> x, d |-> [k \in 1..n |-> Slope(f, x, k)]]))
==============================================================================
