------------------------------- MODULE GrdFile -------------------------------
(* A binary grid file: a header of fixed fields, then the cells one vector    *)
(* after the other, plain or in compressed blocks.  The file is written cell  *)
(* by cell; a fault may then happen to it.  Reading gives every cell at its   *)
(* place or refuses the file.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes,     \* <<cells along easting, cells along northing>>
          Sizes, Flags, Orders, Blocks, \* Blocks: numbers of blocks of compressed files
          Turned, Scaled, Faults
VARIABLES size, flag, order, packed, shape, turned, scaled, blocks, cells, fault
vars == <<size, flag, order, packed, shape, turned, scaled, blocks, cells, fault>>
conf == <<size, flag, order, packed, shape, turned, scaled, blocks>>
\* ---- element types: two's complement integers, plain integers, floating point
Type(es, sf) == CASE es = 1 /\ sf = 0 -> "B" [] es = 1 /\ sf = 1 -> "b" [] es = 2 /\ sf = 0 -> "H" [] es = 2 /\ sf = 1 -> "h"
                  [] es = 4 /\ sf = 0 -> "I" [] es = 4 /\ sf = 1 -> "i" [] es = 4 /\ sf = 2 -> "f" [] es = 8 /\ sf = 2 -> "d" [] OTHER -> "none"
Known == Type(size, flag) # "none" /\ order \in {1, -1}
\* combinations the format leaves open
Open == size = 8 /\ flag \in {0, 1}
Init == /\ size \in Sizes /\ flag \in Flags /\ order \in Orders /\ packed \in BOOLEAN /\ shape \in Shapes /\ turned \in Turned /\ scaled \in Scaled
        /\ blocks \in (IF packed THEN {b \in Blocks : b <= shape[1] * shape[2]} ELSE {0})
        \* unknown types and orders are tried with one shape only, plain files with other combinations only
        /\ (~Known => shape = CHOOSE s \in Shapes : \A t \in Shapes : s[1] * s[2] > t[1] * t[2] \/ (s[1] * s[2] = t[1] * t[2] /\ s[1] >= t[1]))
        /\ cells = <<>> /\ fault = <<"none">>
\* a vector holds the cells along the easting (order 1) or along the northing (order -1)
Elements == IF order = -1 THEN shape[2] ELSE shape[1]
Vectors == IF order = -1 THEN shape[1] ELSE shape[2]
Total == shape[1] * shape[2]
Place(n) == LET e == (n - 1) % Elements
                v == (n - 1) \div Elements
            IN IF order = -1 THEN <<v, e>> ELSE <<e, v>>  \* <<step along easting, step along northing>>
Write == /\ fault = <<"none">> /\ Len(cells) < Total /\ cells' = Append(cells, Place(Len(cells) + 1)) /\ UNCHANGED <<conf, fault>>
Done == Len(cells) = Total
Happens == /\ fault = <<"none">> /\ Done /\ Known /\ UNCHANGED <<conf, cells>>
           /\ \/ "cut" \in Faults /\ \E n \in 0..(Total - 1) : fault' = <<"cut", n>>                  \* only n cells are left
              \/ "bytes" \in Faults /\ \E n \in 1..7 : n < size /\ fault' = <<"bytes", n>>            \* the last cell lacks n bytes
              \/ "more" \in Faults /\ ~packed /\ fault' = <<"more", 1>>                               \* one cell too many
              \/ "header" \in Faults /\ \E n \in {0, 4, 20, 60, 64, 140, 170, 187} : fault' = <<"header", n>>      \* the file ends inside the header
              \/ "shape" \in Faults /\ \E k \in 1..2, d \in {-1, 1} : fault' = <<"shape", k, d>>      \* the header declares another shape
              \/ "block" \in Faults /\ packed /\ \E b \in 1..blocks : fault' \in {<<"lost block", b>>, <<"cut block", b>>, <<"spoiled block", b>>}
              \/ "table" \in Faults /\ packed /\ \E n \in {0, 10, 14, 20} : fault' = <<"table", n>>   \* the file ends inside the table of blocks
              \/ "colour" \in Faults /\ fault' = <<"colour", 3>>
              \/ "order" \in Faults /\ \E o \in {0, 2, -2} : fault' = <<"order", o>>
              \/ "size" \in Faults /\ \E s \in {0, 3, 5, 16, 1024, 1027, 2049} : fault' = <<"size", s>>
Next == Write \/ Happens
Spec == Init /\ [][Next]_vars
Verdict == IF Open THEN "either" ELSE IF ~Known THEN "error"
           ELSE IF fault[1] = "none" THEN "data"
           ELSE IF fault[1] = "more" THEN "either" ELSE "error"
\* ---- invariants
\* every cell of the grid is written once
Once == \A n \in 1..Len(cells), m \in 1..Len(cells) : cells[n] = cells[m] => n = m
All == Done => {cells[n] : n \in 1..Total} = {<<e, v>> : e \in 0..(shape[1] - 1), v \in 0..(shape[2] - 1)}
\* vectors are contiguous: neighbours in the file differ by one step along the vector or start the next vector
Contiguous == \A n \in 2..Len(cells) : LET d == <<cells[n][1] - cells[n - 1][1], cells[n][2] - cells[n - 1][2]>>
                                       IN IF (n - 1) % Elements = 0 THEN d = (IF order = -1 THEN <<1, 1 - Elements>> ELSE <<1 - Elements, 1>>)
                                          ELSE d = (IF order = -1 THEN <<0, 1>> ELSE <<1, 0>>)
Emit == (Done /\ (fault[1] = "none" => order \in Orders))
        => PrintT("@@" \o ToJson([size |-> size, flag |-> flag, order |-> order, packed |-> packed, shape |-> shape, turned |-> turned, scaled |-> scaled, blocks |-> blocks,
                                 elements |-> Elements, vectors |-> Vectors, cells |-> cells, fault |-> fault, type |-> Type(size, flag), verdict |-> Verdict]))
==============================================================================
