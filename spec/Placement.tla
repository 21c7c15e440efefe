------------------------------ MODULE Placement ------------------------------
(* Where the sources of an estimator are after any history of settings, fits  *)
(* and copies.  Data sets are sequences of points <<easting, northing,        *)
(* upward>> on integers; blocks split the extent of the data into             *)
(* round(extent / size) equal parts (at least one) and every block that holds *)
(* data yields the medians of its coordinates (here doubled, to stay integer).*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms
CONSTANTS Sets,      \* sequence of data sets
          Depths,    \* numbers, 0 stands for the default
          Blocks,    \* <<north, east>> sizes, <<0, 0>> for no blocks
          Customs,   \* sequence of custom source sets
          MaxOps,
          Emitting   \* emit histories of at least this length
VARIABLES p,         \* parameters: depth, block, points (0: none)
          fit,       \* 0 or [set, p]: what the last fit saw
          trail
vars == <<p, fit, trail>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(q) == {q[i] : i \in 1..Len(q)}
Lo(d, a) == Min({d[i][a] : i \in 1..Len(d)})
Hi(d, a) == Max({d[i][a] : i \in 1..Len(d)})
\* number of blocks of size s along axis a
Count(d, a, s) == LET w == Hi(d, a) - Lo(d, a) n == (2 * w + s) \div (2 * s) IN IF n < 1 THEN 1 ELSE n
Index(d, a, s, x) == LET w == Hi(d, a) - Lo(d, a) n == Count(d, a, s) k == ((x - Lo(d, a)) * n) \div w IN IF k >= n THEN n - 1 ELSE k
\* no point lies on the line between two blocks and sizes do not halve the extent exactly
Clear(d, a, s) == LET w == Hi(d, a) - Lo(d, a) n == Count(d, a, s) IN
   /\ w > 0
   /\ ((2 * w) % s = 0 => ((2 * w) \div s) % 2 = 0)
   /\ \A i \in 1..Len(d) : d[i][a] \in {Lo(d, a), Hi(d, a)} \/ ((d[i][a] - Lo(d, a)) * n) % w # 0
\* k-th smallest value (1-based) of axis a among the indices K
Kth(d, a, K, k) == CHOOSE v \in {d[i][a] : i \in K} :
   Cardinality({i \in K : d[i][a] < v}) < k /\ Cardinality({i \in K : d[i][a] <= v}) >= k
Median2(d, a, K) == LET n == Cardinality(K) IN Kth(d, a, K, (n + 1) \div 2) + Kth(d, a, K, (n + 2) \div 2)
Cells(d, b) == {<<Index(d, 2, b[1], d[i][2]), Index(d, 1, b[2], d[i][1])>> : i \in 1..Len(d)}
Members(d, b, c) == {i \in 1..Len(d) : <<Index(d, 2, b[1], d[i][2]), Index(d, 1, b[2], d[i][1])>> = c}
\* doubled locations above the sources, as a bag: <<location, how many>>
Bag(q) == {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in Range(q)}
Twice(x) == <<2 * x[1], 2 * x[2], 2 * x[3]>>
Blocked(d, b) == {<<Median2(d, 1, Members(d, b, c)), Median2(d, 2, Members(d, b, c)), Median2(d, 3, Members(d, b, c)), c>> : c \in Cells(d, b)}
Above(d, b) == IF b = <<0, 0>> THEN Bag([i \in 1..Len(d) |-> Twice(d[i])])
               ELSE LET B == Blocked(d, b) IN {<<<<x[1], x[2], x[3]>>, Cardinality({y \in B : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3]})>> : x \in B}
\* squared horizontal distance (of doubled locations) to the nearest other one: bag of <<squared distance, how many>>
Near(bag) == LET near(u) == IF \E v \in bag : v[1][1] = u[1][1] /\ v[1][2] = u[1][2] /\ (v # u \/ v[2] > 1) THEN 0
                            ELSE Min({(v[1][1] - u[1][1]) * (v[1][1] - u[1][1]) + (v[1][2] - u[1][2]) * (v[1][2] - u[1][2]) : v \in bag \ {u}})
             IN {<<u, near(u), u[2]>> : u \in bag}
Usable(k, b) == IF b = <<0, 0>> THEN TRUE ELSE Clear(Sets[k], 2, b[1]) /\ Clear(Sets[k], 1, b[2]) /\ Cardinality(Cells(Sets[k], b)) > 1

Init == p \in [depth : Depths, block : Blocks, points : 0..Len(Customs)] /\ fit = <<>> /\ trail = <<<<"start", p>>>>
Log(x) == trail' = Append(trail, x) /\ Len(trail) <= MaxOps
Fit == \E k \in 1..Len(Sets) : Usable(k, p.block) /\ fit' = <<k, p>> /\ UNCHANGED p /\ Log(<<"fit", k>>)
SetDepth == \E d \in Depths \ {p.depth} : p' = [p EXCEPT !.depth = d] /\ UNCHANGED fit /\ Log(<<"depth", d>>)
SetBlock == \E b \in Blocks \ {p.block} : p' = [p EXCEPT !.block = b] /\ UNCHANGED fit /\ Log(<<"block", b>>)
SetPoints == \E c \in (0..Len(Customs)) \ {p.points} : p' = [p EXCEPT !.points = c] /\ UNCHANGED fit /\ Log(<<"points", c>>)
Clone == fit' = <<>> /\ UNCHANGED p /\ Log(<<"clone">>)
Next == Fit \/ SetDepth \/ SetBlock \/ SetPoints \/ Clone
Spec == Init /\ [][Next]_vars

Locations == Above(Sets[fit[1]], fit[2].block)
Total(bag) == LET RECURSIVE S(_)
                  S(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN x[2] + S(T \ {x})
              IN S(bag)
\* one source per datum, or one per block that holds data; medians stay inside the extent of the data
Sound == fit # <<>> /\ fit[2].points = 0 =>
   LET d == Sets[fit[1]] b == fit[2].block L == Locations IN
   /\ Total(L) = IF b = <<0, 0>> THEN Len(d) ELSE Cardinality(Cells(d, b))
   /\ \A x \in L : \A a \in 1..3 : x[1][a] >= 2 * Lo(d, a) /\ x[1][a] <= 2 * Hi(d, a)
   /\ b # <<0, 0>> => Cardinality(Cells(d, b)) <= Count(d, 2, b[1]) * Count(d, 1, b[2])
\* only fits and copies change what is fitted
KeepsFit == [][fit' # fit => trail'[Len(trail')][1] \in {"fit", "clone"}]_vars
Expect == IF fit = <<>> THEN [kind |-> "none"]
          ELSE IF fit[2].points # 0 THEN [kind |-> "custom", points |-> fit[2].points, set |-> fit[1]]
          ELSE [kind |-> "below", set |-> fit[1], depth |-> fit[2].depth, block |-> fit[2].block, above |-> Locations, near |-> IF fit[2].depth = 0 THEN Near(Locations) ELSE {}]
\* default depth: 4.5 times the mean of sqrt(near) / 2
Emit == Len(trail) > Emitting /\ trail[Len(trail)][1] = "fit" => PrintT("@@" \o ToJson([trail |-> trail, expect |-> Expect]))
==============================================================================
