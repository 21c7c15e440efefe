------------------------------- MODULE GdfFile -------------------------------
(* A text file holding a gravity-field grid and the edits (faults) that may   *)
(* happen to it.  The file is what the format describes: header lines of a    *)
(* key and a value, a blank line, the column names, the column units, the end *)
(* of the header, one row of numbers per grid point.  Reading it must either  *)
(* give the value of every row at the row's own place or be refused:          *)
(*   "data"   the file is complete and consistent: it has to be read          *)
(*   "error"  it misses something or contradicts itself: it has to be refused *)
(*   "either" unusual but readable: refused, or every value at its own place  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes,    \* <<parallels, meridians>>
          MaxEdits, Families
VARIABLES head,      \* sequence of <<key, value>>
          blanks,    \* number of blank lines after the header lines
          early,     \* position of a blank line among the header lines, or 0
          names, units, \* sequences of column names / of units ("none" when the line is missing)
          ending,    \* is the line closing the header there?
          rows,      \* sequence of [i, j, cells, ok]: column and row of the point, number of cells, all numbers?
          gaps,      \* blank lines inside the names/units part
          shape, edits
vars == <<head, blanks, early, names, units, ending, rows, gaps, shape, edits>>
Required == {"latitude_parallels", "longitude_parallels", "number_of_gridpoints", "latlimit_south", "latlimit_north", "longlimit_west", "longlimit_east"}
Base(p, m) == <<<<"modelname", 0>>, <<"latlimit_north", p - 1>>, <<"latlimit_south", 0>>, <<"longlimit_west", 0>>, <<"longlimit_east", m - 1>>,
                <<"height_over_ell", 1100>>, <<"latitude_parallels", p>>, <<"longitude_parallels", m>>, <<"number_of_gridpoints", p * m>>, <<"gapvalue", 9999999>>>>
\* north row first, from west to east; j counts from the south, i from the west
MeshRow(k, p, m) == [i |-> (k - 1) % m, j |-> (p - 1) - ((k - 1) \div m), cells |-> 4, ok |-> TRUE]
Names0 == <<"longitude", "latitude", "h_over_geoid", "sample_data">>
Init == /\ shape \in Shapes
        /\ head = Base(shape[1], shape[2]) /\ blanks = 1 /\ early = 0 /\ names = Names0 /\ units = <<"[deg.]", "[deg.]", "[meter]", "[mgal]">>
        /\ ending = TRUE /\ rows = [k \in 1..(shape[1] * shape[2]) |-> MeshRow(k, shape[1], shape[2])] /\ gaps = 0 /\ edits = <<>>
Without(s, k) == [n \in 1..(Len(s) - 1) |-> IF n < k THEN s[n] ELSE s[n + 1]]
Swapped(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Note(e) == edits' = Append(edits, e)
Touched(f) == f \in Families /\ Len(edits) < MaxEdits
\* ---- header lines
HeadEdit == /\ Touched("head") /\ UNCHANGED <<blanks, early, names, units, ending, rows, gaps, shape>>
            /\ \/ \E k \in 1..Len(head) : head' = Without(head, k) /\ Note(<<"drop", head[k][1]>>)
               \/ \E k \in 1..Len(head) : head' = Append(head, head[k]) /\ Note(<<"repeat", head[k][1]>>)
               \/ \E k \in 1..Len(head), d \in {-1, 1} : head' = [head EXCEPT ![k][2] = @ + d] /\ Note(<<"change", head[k][1], d>>)
               \/ \E k \in 1..Len(head), d \in {-1, 1} : head' = Append(head, <<head[k][1], head[k][2] + d>>) /\ Note(<<"contradict", head[k][1], d>>)
               \/ \E k \in 1..(Len(head) - 1) : head' = Swapped(head, k, k + 1) /\ Note(<<"exchange", k>>)
               \/ head' = [k \in 1..Len(head) |-> head[Len(head) + 1 - k]] /\ Note(<<"reverse">>)
\* ---- the skeleton of the file
SkeletonEdit == /\ Touched("skeleton") /\ UNCHANGED <<head, rows, shape>>
                /\ \/ \E b \in {0, 2} : blanks' = b /\ Note(<<"blanks", b>>) /\ UNCHANGED <<early, names, units, ending, gaps>>
                   \/ \E p \in 1..(Len(head) - 1) : early' = p /\ Note(<<"early blank", p>>) /\ UNCHANGED <<blanks, names, units, ending, gaps>>
                   \/ ending' = FALSE /\ Note(<<"no end">>) /\ UNCHANGED <<blanks, early, names, units, gaps>>
                   \/ names' = <<"none">> /\ Note(<<"no names">>) /\ UNCHANGED <<blanks, early, units, ending, gaps>>
                   \/ units' = <<"none">> /\ Note(<<"no units">>) /\ UNCHANGED <<blanks, early, names, ending, gaps>>
                   \/ gaps' = 1 /\ Note(<<"gap">>) /\ UNCHANGED <<blanks, early, names, units, ending>>
\* ---- columns
ColumnEdit == /\ Touched("columns") /\ names # <<"none">> /\ units # <<"none">> /\ UNCHANGED <<head, blanks, early, ending, gaps, shape>>
              /\ \/ \E k \in 1..Len(names) : names' = Without(names, k) /\ Note(<<"drop name", k>>) /\ UNCHANGED <<units, rows>>
                 \/ \E k \in 1..Len(units) : units' = Without(units, k) /\ Note(<<"drop unit", k>>) /\ UNCHANGED <<names, rows>>
                 \/ \E k \in 1..Len(names) : names' = [names EXCEPT ![k] = "something"] /\ Note(<<"rename", k>>) /\ UNCHANGED <<units, rows>>
                 \/ \E k \in 1..(Len(names) - 1) : names' = Swapped(names, k, k + 1) /\ Note(<<"exchange names", k>>) /\ UNCHANGED <<units, rows>>
                 \/ names' = Append(names, "extra") /\ units' = Append(units, "[one]") /\ Note(<<"declare column">>) /\ UNCHANGED rows
                 \/ rows' = [k \in 1..Len(rows) |-> [rows[k] EXCEPT !.cells = @ + 1]] /\ Note(<<"add cells">>) /\ UNCHANGED <<names, units>>
                 \/ rows' = [k \in 1..Len(rows) |-> [rows[k] EXCEPT !.cells = @ - 1]] /\ Note(<<"remove cells">>) /\ UNCHANGED <<names, units>>
\* ---- rows
RowEdit == /\ Touched("rows") /\ UNCHANGED <<head, blanks, early, names, units, ending, gaps, shape>>
           /\ \/ \E k \in 1..Len(rows) : rows' = Without(rows, k) /\ Note(<<"drop row", k>>)
              \/ \E k \in 1..Len(rows) : rows' = Append(rows, rows[k]) /\ Note(<<"repeat row", k>>)
              \/ \E k \in 1..Len(rows), l \in 1..Len(rows) : k < l /\ rows' = Swapped(rows, k, l) /\ Note(<<"exchange rows", k, l>>)
              \/ \E k \in 1..Len(rows) : rows' = [rows EXCEPT ![k].cells = @ - 1] /\ Note(<<"cut row", k>>)
              \/ \E k \in 1..Len(rows) : rows' = [rows EXCEPT ![k].ok = FALSE] /\ Note(<<"spoil row", k>>)
              \/ \E k \in 1..Len(rows), d \in {-1, 1} : rows' = [rows EXCEPT ![k].i = @ + d] /\ Note(<<"move row", k, d>>)
              \/ \E k \in 1..Len(rows), d \in {-1, 1} : rows' = [rows EXCEPT ![k].j = @ + d] /\ Note(<<"lift row", k, d>>)
              \/ \E n \in 0..(Len(rows) - 1) : rows' = SubSeq(rows, 1, n) /\ Note(<<"truncate", n>>)
              \/ rows' = [k \in 1..Len(rows) |-> [rows[k] EXCEPT !.j = (shape[1] - 1) - @]] /\ Note(<<"south first">>)
              \/ rows' = [k \in 1..Len(rows) |-> [rows[k] EXCEPT !.i = (shape[2] - 1) - @]] /\ Note(<<"east first">>)
              \/ rows' = [k \in 1..Len(rows) |-> [rows[k] EXCEPT !.i = ((k - 1) \div shape[1]) , !.j = (k - 1) % shape[1]]] /\ Len(rows) = shape[1] * shape[2] /\ Note(<<"columns first">>)
Next == HeadEdit \/ SkeletonEdit \/ ColumnEdit \/ RowEdit
Spec == Init /\ [][Next]_vars
\* ---- the meaning of a file
Values(k) == {head[n][2] : n \in {n \in 1..Len(head) : head[n][1] = k}}
Complete == \A k \in Required : Values(k) # {}
Conflict == \E k \in Required \cup {"height_over_ell", "modelname", "gapvalue"} : Cardinality(Values(k)) > 1
The(k) == CHOOSE v \in Values(k) : TRUE
Skeleton == blanks + gaps >= 1 /\ (early = 0 \/ early >= Len(head)) /\ ending /\ names # <<"none">> /\ units # <<"none">>
Columns == Len(names) = Len(units) /\ Cardinality({names[k] : k \in 1..Len(names)}) = Len(names) /\ "latitude" \in {names[k] : k \in 1..Len(names)} /\ "longitude" \in {names[k] : k \in 1..Len(names)}
Table == Len(rows) > 0 /\ \A k \in 1..Len(rows) : rows[k].ok /\ rows[k].cells = Len(names)
\* where the row says it is: the first cell is the west-east position, the second one the south-north position
At(n) == CHOOSE k \in 1..Len(names) : names[k] = n
Cell(k, c) == IF c = 1 THEN rows[k].i ELSE IF c = 2 THEN rows[k].j ELSE -100 * c - k
Lon(k) == Cell(k, At("longitude"))
Lat(k) == Cell(k, At("latitude"))
Smallest(S) == CHOOSE v \in S : \A w \in S : v <= w
Largest(S) == CHOOSE v \in S : \A w \in S : v >= w
Lons == {Lon(k) : k \in 1..Len(rows)}
Lats == {Lat(k) : k \in 1..Len(rows)}
Size == The("latitude_parallels") * The("longitude_parallels") = The("number_of_gridpoints") /\ Len(rows) = The("number_of_gridpoints")
Area == Smallest(Lats) = The("latlimit_south") /\ Largest(Lats) = The("latlimit_north") /\ Smallest(Lons) = The("longlimit_west") /\ Largest(Lons) = The("longlimit_east")
\* the points are all the crossings of the declared number of parallels and meridians
Mesh == /\ Cardinality(Lons) = The("longitude_parallels") /\ Cardinality(Lats) = The("latitude_parallels")
        /\ Cardinality({<<Lon(k), Lat(k)>> : k \in 1..Len(rows)}) = Len(rows)
Rows == The("longitude_parallels")
\* rows are stored one parallel after the other, each parallel with the same sequence of meridians, both in order
InOrder == \A k \in 1..Len(rows) : /\ Lon(k) = Lon(((k - 1) % Rows) + 1)
                                   /\ Lat(k) = Lat(((k - 1) \div Rows) * Rows + 1)
Tidy == /\ \A k \in 2..Rows : Lon(k) > Lon(k - 1)
        /\ \A k \in 2..The("latitude_parallels") : Lat((k - 1) * Rows + 1) < Lat((k - 2) * Rows + 1)
\* a file whose header repeats a key with different values is only good when one of the readings is
Mesh0 == Cardinality({<<Lon(k), Lat(k)>> : k \in 1..Len(rows)}) = Len(rows) /\ Cardinality(Lons) * Cardinality(Lats) = Len(rows)
Verdict == IF ~(Skeleton /\ Complete) THEN "error"
           ELSE IF ~(Columns /\ Table) THEN "error"
           ELSE IF Conflict THEN (IF Mesh0 THEN "either" ELSE "error")
           ELSE IF ~(Size /\ Area /\ Mesh) THEN "error"
           ELSE IF InOrder /\ Tidy /\ gaps = 0 /\ early = 0 THEN "data" ELSE "either"
\* ---- invariants of the meaning
Untouched == edits = <<>> => Verdict = "data"
\* a fault in a row, a missing row or a missing required line is never readable
Faults == (Len(edits) = 1 /\ edits[1][1] \in {"cut row", "spoil row", "truncate", "drop row", "repeat row", "no end", "no names", "no units", "drop unit", "drop name", "add cells", "remove cells", "declare column"})
          => Verdict = "error"
Harmless == (Len(edits) = 1 /\ edits[1][1] \in {"exchange", "reverse", "repeat"}) => Verdict = "data"
Lost == \A e \in {edits[k] : k \in 1..Len(edits)} : (Len(edits) = 1 /\ e[1] = "drop") => (Verdict = IF e[2] \in Required THEN "error" ELSE "data")
Located == Verdict # "error" => Cardinality({<<Lon(k), Lat(k)>> : k \in 1..Len(rows)}) = Len(rows)
HeadOut == [k \in 1..Len(head) |-> [k |-> head[k][1], v |-> head[k][2]]]
Emit == PrintT("@@" \o ToJson([head |-> HeadOut, blanks |-> blanks, early |-> early, names |-> names, units |-> units, ending |-> ending,
                               rows |-> rows, gaps |-> gaps, shape |-> shape, edits |-> edits, verdict |-> Verdict, conflict |-> Conflict]))
==============================================================================
