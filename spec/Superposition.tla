--------------------------- MODULE Superposition ---------------------------
(* A collection of sources edited step by step.  Along one axis space is a   *)
(* row of N unit cells; a source is an interval [lo, hi] of cells (lo = hi:  *)
(* no volume) with an integer strength.  What the collection means is the    *)
(* density of every cell: edits that keep the density keep every field, and  *)
(* the field of a collection is the density-weighted sum of the cell fields. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Strengths, MaxLen, MaxSteps

VARIABLES srcs, steps, last
vars == <<srcs, steps, last>>

Interval == {<<a, b>> \in (0..N) \X (0..N) : a <= b}
Source(i, s) == [lo |-> i[1], hi |-> i[2], s |-> s]
IsNull(x) == x.lo = x.hi \/ x.s = 0
Covers(x, c) == x.lo < c /\ c <= x.hi
RECURSIVE SumOver(_, _)
SumOver(q, c) == IF q = <<>> THEN 0
                 ELSE (IF Covers(Head(q), c) THEN Head(q).s ELSE 0) + SumOver(Tail(q), c)
Density(q) == [c \in 1..N |-> SumOver(q, c)]

RemoveAt(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
InsertAt(q, i, x) == [j \in 1..(Len(q) + 1) |-> IF j < i THEN q[j] ELSE IF j = i THEN x ELSE q[j - 1]]
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]

Init == srcs = <<>> /\ steps = 0 /\ last = "init"
Step(name, q) == srcs' = q /\ steps' = steps + 1 /\ last' = name /\ steps < MaxSteps
Add == Len(srcs) < MaxLen /\ \E i \in Interval, s \in Strengths \ {0}, at \in 1..(Len(srcs) + 1) :
          i[1] < i[2] /\ Step("add", InsertAt(srcs, at, Source(i, s)))
AddNullStrength == Len(srcs) < MaxLen /\ \E i \in Interval, at \in 1..(Len(srcs) + 1) :
          i[1] < i[2] /\ Step("null-strength", InsertAt(srcs, at, Source(i, 0)))
AddNullVolume == Len(srcs) < MaxLen /\ \E a \in 0..N, s \in Strengths, at \in 1..(Len(srcs) + 1) :
          Step("null-volume", InsertAt(srcs, at, Source(<<a, a>>, s)))
Remove == \E i \in 1..Len(srcs) : Step("remove", RemoveAt(srcs, i))
Reorder == \E i, j \in 1..Len(srcs) : i < j /\ Step("reorder", Swap(srcs, i, j))
Negate == \E i \in 1..Len(srcs) : Step("negate", [srcs EXCEPT ![i].s = -@])
Double == \E i \in 1..Len(srcs) : srcs[i].s \in -4..4 /\ Step("double", [srcs EXCEPT ![i].s = 2 * @])
Duplicate == Len(srcs) < MaxLen /\ \E i \in 1..Len(srcs) : Step("duplicate", InsertAt(srcs, i, srcs[i]))
Split == Len(srcs) < MaxLen /\ \E i \in 1..Len(srcs) : \E m \in 0..N :
          /\ srcs[i].lo <= m /\ m <= srcs[i].hi
          /\ Step("split", InsertAt([srcs EXCEPT ![i].hi = m], i + 1, [srcs[i] EXCEPT !.lo = m]))
Merge == \E i \in 1..(Len(srcs) - 1) :
          /\ srcs[i].hi = srcs[i + 1].lo /\ srcs[i].s = srcs[i + 1].s
          /\ Step("merge", RemoveAt([srcs EXCEPT ![i].hi = srcs[i + 1].hi], i + 1))
\* one cell at a time so that point-like sources follow the same histories
AddCell == Len(srcs) < MaxLen /\ \E a \in 0..(N - 1), s \in Strengths, at \in 1..(Len(srcs) + 1) :
          Step("add-cell", InsertAt(srcs, at, Source(<<a, a + 1>>, s)))
Next == Add \/ AddCell \/ AddNullStrength \/ AddNullVolume \/ Remove \/ Reorder \/ Negate \/ Double \/ Duplicate \/ Split \/ Merge
Spec == Init /\ [][Next]_vars

\* edits that must not change the meaning, and edits that change it by a known amount
KeepsField == [][last' \in {"null-strength", "null-volume", "reorder", "split", "merge"} => Density(srcs') = Density(srcs)]_vars
DropNulls == LET keep(x) == ~IsNull(x) IN Density(SelectSeq(srcs, keep)) = Density(srcs)
TypeOK == /\ Len(srcs) <= MaxLen
          /\ \A i \in 1..Len(srcs) : srcs[i].lo \in 0..N /\ srcs[i].hi \in 0..N /\ srcs[i].lo <= srcs[i].hi
Emit == srcs # <<>> => PrintT("@@" \o ToJson([srcs |-> srcs, density |-> Density(srcs), last |-> last]))
============================================================================
