------------------------------ MODULE Boosting ------------------------------
(* Gradient boosting over windows.  Data and sources on integer positions     *)
(* inside an extent that starts at 0; square windows of size w, about half    *)
(* overlapping, span the extent exactly.  The windows with data and sources   *)
(* are visited once, in some order; each visit adds to the coefficients of    *)
(* the sources of the window and takes their effect out of all the residuals. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Layouts,   \* set of [data, srcs, w], positions <<e, n>>
          Steps,     \* what a visit can add to a coefficient (for checking the books)
          WithBooks  \* explore visits, or only emit the windows
VARIABLES lay, visited, coef, res
vars == <<lay, visited, coef, res>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
All(l) == {l.data[i] : i \in 1..Len(l.data)} \cup {l.srcs[i] : i \in 1..Len(l.srcs)}
Lo0(l, a) == Min({x[a] : x \in All(l)})
Ext0(l, a) == Max({x[a] : x \in All(l)}) - Lo0(l, a)
\* number of windows along an axis: the step closest to half a window
Gaps0(ext, w) == LET free == ext - w g == (4 * free + w) \div (2 * w) IN IF free = 0 THEN 0 ELSE IF g = 0 THEN 1 ELSE g
Tie(l, a) == (4 * (Ext0(l, a) - l.w) + l.w) % (2 * l.w) = 0
Fits(l) == \A a \in 1..2 : Ext0(l, a) >= l.w /\ ~Tie(l, a)
\* the layout with its origin, extent and number of windows
Prep(l) == [data |-> l.data, srcs |-> l.srcs, w |-> l.w, lo |-> <<Lo0(l, 1), Lo0(l, 2)>>, ext |-> <<Ext0(l, 1), Ext0(l, 2)>>, gaps |-> <<Gaps0(Ext0(l, 1), l.w), Gaps0(Ext0(l, 2), l.w)>>]
Lo(l, a) == l.lo[a]
Extent(l, a) == l.ext[a]
Gaps(l, a) == l.gaps[a]
D(l, a) == IF Gaps(l, a) = 0 THEN 1 ELSE Gaps(l, a)
\* distance from the left side of window k, times D
From(l, a, k, x) == (x - Lo(l, a)) * D(l, a) - k * (Extent(l, a) - l.w)
In(l, a, k, x) == From(l, a, k, x) >= 0 /\ From(l, a, k, x) <= l.w * D(l, a)
Inside(l, a, k, x) == From(l, a, k, x) > 0 /\ From(l, a, k, x) < l.w * D(l, a)
Windows(l) == {<<i, j>> : i \in 0..Gaps(l, 1), j \in 0..Gaps(l, 2)}
Closed(l, q, x) == {i \in 1..Len(q) : In(l, 1, x[1], q[i][1]) /\ In(l, 2, x[2], q[i][2])}
Open(l, q, x) == {i \in 1..Len(q) : Inside(l, 1, x[1], q[i][1]) /\ Inside(l, 2, x[2], q[i][2])}
Useful(l) == {x \in Windows(l) : Closed(l, l.data, x) # {} /\ Closed(l, l.srcs, x) # {}}
\* effect of source j on datum i, for the books only
A(i, j) == 1 + ((i * j) % 3)
RECURSIVE Dot(_, _, _)
Dot(c, i, n) == IF n = 0 THEN 0 ELSE c[n] * A(i, n) + Dot(c, i, n - 1)
Datum(i) == 5 * i
Init == lay \in {Prep(l) : l \in {k \in Layouts : Fits(k)}} /\ visited = {} /\ coef = [j \in 1..Len(lay.srcs) |-> 0] /\ res = [i \in 1..Len(lay.data) |-> Datum(i)]
Visit == WithBooks /\ \E x \in Useful(lay) \ visited : \E s \in Steps :
   LET S == Closed(lay, lay.srcs, x)
       add == [j \in 1..Len(lay.srcs) |-> IF j \in S THEN s * (1 + (j % 2)) ELSE 0]
   IN /\ visited' = visited \cup {x}
      /\ coef' = [j \in DOMAIN coef |-> coef[j] + add[j]]
      /\ res' = [i \in DOMAIN res |-> res[i] - Dot(add, i, Len(lay.srcs))]
      /\ UNCHANGED lay
Spec == Init /\ [][Visit]_vars
\* every datum and every source is in some window, and in no more than two per axis plus those that only touch it
Covered == \A q \in {lay.data, lay.srcs} : \A i \in 1..Len(q) : \E x \in Windows(lay) : i \in Closed(lay, q, x)
Square == \A a \in 1..2 : Gaps(lay, a) > 0 => From(lay, a, Gaps(lay, a), Lo(lay, a) + Extent(lay, a)) = lay.w * D(lay, a)
\* neighbouring windows overlap
Overlap == \A a \in 1..2 : Extent(lay, a) - lay.w < lay.w * D(lay, a)
\* the residuals are always what the data leave after the accumulated coefficients
Books == \A i \in DOMAIN res : res[i] = Datum(i) - Dot(coef, i, Len(lay.srcs))
Untouched == visited = Useful(lay) => \A j \in DOMAIN coef : (\A x \in Useful(lay) : j \notin Closed(lay, lay.srcs, x)) => coef[j] = 0
Emit == visited = {} => PrintT("@@" \o ToJson([lay |-> lay, windows |-> {[id |-> x, data |-> Closed(lay, lay.data, x), srcs |-> Closed(lay, lay.srcs, x), dataIn |-> Open(lay, lay.data, x), srcsIn |-> Open(lay, lay.srcs, x)] : x \in Windows(lay)}]))
==============================================================================
