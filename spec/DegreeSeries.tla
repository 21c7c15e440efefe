---------------------------- MODULE DegreeSeries ----------------------------
(* A truncated series is cut into pieces of consecutive degrees: every degree *)
(* of the whole belongs to one piece.  There is nothing of degree 0.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDegree, MaxPieces
VARIABLES pieces
Init == \E a \in 0..MaxDegree, b \in 0..MaxDegree : a <= b /\ pieces = <<<<a, b>>>>
Cut == /\ Len(pieces) < MaxPieces
       /\ \E k \in 1..Len(pieces), d \in 0..MaxDegree : /\ pieces[k][1] <= d /\ d < pieces[k][2]
                                                        /\ pieces' = SubSeq(pieces, 1, k - 1) \o <<<<pieces[k][1], d>>, <<d + 1, pieces[k][2]>>>> \o SubSeq(pieces, k + 1, Len(pieces))
Spec == Init /\ [][Cut]_pieces
Whole == <<pieces[1][1], pieces[Len(pieces)][2]>>
Cover == \A d \in Whole[1]..Whole[2] : Cardinality({k \in 1..Len(pieces) : pieces[k][1] <= d /\ d <= pieces[k][2]}) = 1
Kept == [][Whole' = Whole]_pieces
Emit == PrintT("@@" \o ToJson([whole |-> Whole, pieces |-> pieces]))
==============================================================================
