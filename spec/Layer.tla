-------------------------------- MODULE Layer --------------------------------
(* A layer of prisms (or tesseroids) on a regular grid and its history:       *)
(* creation, updates of surface and reference, changes of a property, and the *)
(* xarray views a user takes of it (reversed axes, slices, strides, transposes).*)
(*                                                                            *)
(* Lengths are integers; grid centres are multiples of 2 so that boundaries   *)
(* stay integer (a cell is centre +- spacing/2).  NaN is a value of its own.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows, Cols,      \* sets of grid sizes
          Values,          \* heights a surface may take (integers, may include NaN)
          Refs,            \* scalar references
          Densities,       \* values of the property (may include NaN and 0)
          Thresholds,      \* thickness thresholds (-1: not given)
          MaxSteps,
          Alternate        \* every other step is a view (keeps long random behaviours varied)

NaN == 9999
VARIABLES lay,     \* [y, x: centres; top, bot, rho: [row][col]]
          steps, last,
          trail    \* everything that was done so far (history variable, replayed on the implementation)
vars == <<lay, steps, last, trail>>

\* ordering of a list of values used to fill arrays in a pattern (a full function space would be too large)
VSeq == LET RECURSIVE order(_)
            order(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A q \in S : m <= q IN <<m>> \o order(S \ {m})
        IN order(Values)
\* surfaces that may be stored as integers: whole units, no gaps
ISeq == SelectSeq(VSeq, LAMBDA v : v # NaN /\ v % 2 = 0)
DSeq == LET RECURSIVE order(_)
            order(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A q \in S : m <= q IN <<m>> \o order(S \ {m})
        IN order(Densities)
Pattern(seq, a, b, k, nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> seq[((a * i + b * j + k) % Len(seq)) + 1]]]
Const(v, nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> v]]

\* surface above reference: the cell goes up from it; below: down to it; NaN never compares
Less(s, r) == s # NaN /\ r # NaN /\ s < r
Top(s, r) == IF Less(s, r) THEN r ELSE s
Bot(s, r) == IF Less(s, r) THEN s ELSE r
TopOf(S, R) == [i \in 1..Len(S) |-> [j \in 1..Len(S[1]) |-> Top(S[i][j], R[i][j])]]
BotOf(S, R) == [i \in 1..Len(S) |-> [j \in 1..Len(S[1]) |-> Bot(S[i][j], R[i][j])]]

NR == Len(lay.y)
NC == Len(lay.x)
Abs(v) == IF v < 0 THEN -v ELSE v
SpY(l) == Abs(l.y[2] - l.y[1])
SpX(l) == Abs(l.x[2] - l.x[1])
Cell(l, i, j) == [w |-> l.x[j] - SpX(l) \div 2, e |-> l.x[j] + SpX(l) \div 2,
                  s |-> l.y[i] - SpY(l) \div 2, n |-> l.y[i] + SpY(l) \div 2,
                  b |-> l.bot[i][j], t |-> l.top[i][j], rho |-> l.rho[i][j]]
Cells(l) == {Cell(l, i, j) : i \in 1..Len(l.y), j \in 1..Len(l.x)}
MinOf(q) == CHOOSE m \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : m <= q[k]
MaxOf(q) == CHOOSE m \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : m >= q[k]
Bounds(l) == <<MinOf(l.x) - SpX(l) \div 2, MaxOf(l.x) + SpX(l) \div 2, MinOf(l.y) - SpY(l) \div 2, MaxOf(l.y) + SpY(l) \div 2>>

\* what a cell contributes to a field
Valid(c) == c.b # NaN /\ c.t # NaN
Counts(c, thr) == Valid(c) /\ c.rho # NaN /\ c.rho # 0 /\ c.b # c.t /\ (thr = -1 \/ c.t - c.b >= thr)
WarnsNaN(l) == \E c \in Cells(l) : c.rho = NaN

Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
RevCols(m) == [i \in 1..Len(m) |-> Reverse(m[i])]
TailCols(m) == [i \in 1..Len(m) |-> Tail(m[i])]
Odd(q) == [k \in 1..((Len(q) + 1) \div 2) |-> q[2 * k - 1]]
OddCols(m) == [i \in 1..Len(m) |-> Odd(m[i])]

Step(name, l) == steps < MaxSteps /\ lay' = l /\ steps' = steps + 1 /\ last' = name /\ trail' = Append(trail, name)

Create(nr, nc, sy, sx, dy, dx, S, R, D) ==
  [y |-> [k \in 1..nr |-> dy * 2 * sy * (k - 1) + 10 * sy], x |-> [k \in 1..nc |-> dx * 2 * sx * (k - 1) - 6 * sx],
   top |-> TopOf(S, R), bot |-> BotOf(S, R), rho |-> D]
AnyRef(nr, nc) == {Const(r, nr, nc) : r \in Refs} \cup {Pattern(VSeq, a, 1, 1, nr, nc) : a \in {1, 2}}
Init == \E nr \in Rows, nc \in Cols, sx \in {1, 3}, dy \in {1, -1}, r \in Refs, k \in 0..1 :
          LET S == Pattern(IF k = 0 THEN VSeq ELSE ISeq, 1, 2, k, nr, nc) D == Pattern(DSeq, 2, 1, k, nr, nc) IN
          /\ lay = Create(nr, nc, 2, sx, dy, 1, S, Const(r, nr, nc), D)
          /\ steps = 0 /\ last = [op |-> "create", ref |-> r, surface |-> S, rho |-> D, y |-> lay.y, x |-> lay.x]
          /\ trail = <<last>>
Update == \E a \in 1..2, b \in 1..2, k \in 0..(Len(VSeq) - 1) :
            LET S == Pattern(IF k = Len(VSeq) - 1 THEN ISeq ELSE VSeq, a, b, k, NR, NC) IN
            \/ \E r \in Refs : Step([op |-> "update-scalar", surface |-> S, ref |-> r],
                  [lay EXCEPT !.top = TopOf(S, Const(r, NR, NC)), !.bot = BotOf(S, Const(r, NR, NC))])
            \/ \E c \in 1..2 : LET R == Pattern(VSeq, c, 1, k + c, NR, NC) IN
                  Step([op |-> "update-array", surface |-> S, ref |-> R], [lay EXCEPT !.top = TopOf(S, R), !.bot = BotOf(S, R)])
\* a surface of another shape is refused and leaves the layer alone
BadUpdate == \E which \in {"surface", "reference"} : Step([op |-> "bad-" \o which, ref |-> <<>>], lay)
SetProperty == \E a \in 1..2, k \in 0..(Len(DSeq) - 1) : LET D == Pattern(DSeq, a, 1, k, NR, NC) IN
                 \E o \in {"property", "property-transposed"} : Step([op |-> o, rho |-> D, ref |-> <<>>], [lay EXCEPT !.rho = D])
\* the same dataset with its dimensions in another order
Transpose == Step([op |-> "transpose", ref |-> <<>>], lay)
FlipY == Step([op |-> "flip-y", ref |-> <<>>], [lay EXCEPT !.y = Reverse(@), !.top = Reverse(@), !.bot = Reverse(@), !.rho = Reverse(@)])
FlipX == Step([op |-> "flip-x", ref |-> <<>>], [lay EXCEPT !.x = Reverse(@), !.top = RevCols(@), !.bot = RevCols(@), !.rho = RevCols(@)])
CutY == NR > 2 /\ Step([op |-> "cut-y", ref |-> <<>>], [lay EXCEPT !.y = Tail(@), !.top = Tail(@), !.bot = Tail(@), !.rho = Tail(@)])
CutX == NC > 2 /\ Step([op |-> "cut-x", ref |-> <<>>], [lay EXCEPT !.x = Tail(@), !.top = TailCols(@), !.bot = TailCols(@), !.rho = TailCols(@)])
ThinX == NC > 2 /\ Step([op |-> "thin-x", ref |-> <<>>], [lay EXCEPT !.x = Odd(@), !.top = OddCols(@), !.bot = OddCols(@), !.rho = OddCols(@)])
Next == \/ (~Alternate \/ steps % 2 = 1) /\ (Update \/ SetProperty)
        \/ BadUpdate \/ Transpose \/ FlipY \/ FlipX \/ CutY \/ CutX \/ ThinX
Spec == Init /\ [][Next]_vars

TypeOK == Len(lay.top) = NR /\ Len(lay.bot) = NR /\ Len(lay.rho) = NR /\ \A i \in 1..NR : Len(lay.top[i]) = NC /\ Len(lay.bot[i]) = NC /\ Len(lay.rho[i]) = NC
Ordered == \A c \in Cells(lay) : Valid(c) => c.b <= c.t
\* cells of neighbouring grid points touch and do not overlap; together they fill the boundaries
Tiling == /\ \A i \in 1..NR, j \in 1..(NC - 1) :
               LET a == Cell(lay, i, j) b == Cell(lay, i, j + 1) IN a.e = b.w \/ b.e = a.w
          /\ \A i \in 1..(NR - 1), j \in 1..NC :
               LET a == Cell(lay, i, j) b == Cell(lay, i + 1, j) IN a.n = b.s \/ b.n = a.s
          /\ LET B == Bounds(lay) IN (B[2] - B[1]) * (B[4] - B[3]) = NR * NC * SpX(lay) * SpY(lay)
Centred == \A i \in 1..NR, j \in 1..NC : LET c == Cell(lay, i, j) IN c.w + c.e = 2 * lay.x[j] /\ c.s + c.n = 2 * lay.y[i] /\ c.w < c.e /\ c.s < c.n
\* reversing an axis is only another way of storing the same cells; a refused update changes nothing
SameCells == [][(last'.op \in {"flip-x", "flip-y", "transpose", "bad-surface", "bad-reference"}) => Cells(lay') = Cells(lay)]_vars
Shrinks == [][(last'.op \in {"cut-x", "cut-y"}) => Cells(lay') \subseteq Cells(lay)]_vars
Geometry == [][(last'.op \in {"update-scalar", "update-array", "property", "property-transposed"}) => Bounds(lay') = Bounds(lay)]_vars
Keeps == [][(last'.op \in {"update-scalar", "update-array"}) => lay'.rho = lay.rho]_vars

Out(l) == [y |-> l.y, x |-> l.x, top |-> l.top, bot |-> l.bot, rho |-> l.rho,
           cells |-> [i \in 1..Len(l.y) |-> [j \in 1..Len(l.x) |-> LET c == Cell(l, i, j) IN <<c.w, c.e, c.s, c.n, c.b, c.t>>]],
           bounds |-> Bounds(l), spy |-> SpY(l), spx |-> SpX(l), warns |-> WarnsNaN(l),
           counts |-> [t \in Thresholds |-> [i \in 1..Len(l.y) |-> [j \in 1..Len(l.x) |-> Counts(Cell(l, i, j), t)]]]]
Emit == PrintT("@@" \o ToJson([op |-> last.op, trail |-> trail, lay |-> Out(lay)]))
==============================================================================
