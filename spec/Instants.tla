------------------------------ MODULE Instants ------------------------------
(* Instants of the geomagnetic model: days since 1900-01-01 and the minute of *)
(* the day in UTC.  An instant may be written with any UTC offset; the model  *)
(* depends on the instant only.  Time runs through epochs of five years; the  *)
(* coefficients change linearly in elapsed time inside an epoch and by the    *)
(* secular variation after the last one.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Days, Minutes, Offsets,  \* Offsets in minutes; 9999 = no offset is written (UTC)
          FirstYear, LastEpoch, Step
VARIABLES day, minute, offset
vars == <<day, minute, offset>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
\* days from the first of January of FirstYear to the one of year y (y >= FirstYear - 5)
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
NewYear(y) == 365 * (y - FirstYear) + LeapsBefore(y) - LeapsBefore(FirstYear)
Lengths(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Month(_, _, _)
Month(y, d, k) == IF d < Lengths(y)[k] THEN <<y, k, d + 1>> ELSE Month(y, d - Lengths(y)[k], k + 1)
YearOf(d) == CHOOSE y \in (FirstYear + (d \div 366) - 1)..(FirstYear + (d \div 365) + 1) : NewYear(y) <= d /\ d < NewYear(y + 1)
Civil(d) == LET y == YearOf(d) IN Month(y, d - NewYear(y), 1)
RECURSIVE Before(_, _)
Before(y, k) == IF k = 1 THEN 0 ELSE Lengths(y)[k - 1] + Before(y, k - 1)
Number(c) == NewYear(c[1]) + Before(c[1], c[2]) + c[3] - 1
Init == day \in Days /\ minute \in Minutes /\ offset = 9999
\* the same instant in other words
Respell == offset = 9999 /\ offset' \in Offsets /\ UNCHANGED <<day, minute>>
Spec == Init /\ [][Respell]_vars
Shift == IF offset = 9999 THEN 0 ELSE offset
Local == day * 1440 + minute + Shift
LocalDay == Local \div 1440
LocalMinute == Local % 1440
Valid == 0 <= day /\ day < NewYear(LastEpoch + Step)
Epoch == LET y == YearOf(day) IN y - ((y - FirstYear) % Step)
Elapsed == (day - NewYear(Epoch)) * 1440 + minute   \* minutes since the epoch
Length == (NewYear(Epoch + Step) - NewYear(Epoch)) * 1440
\* ---- invariants
RoundTrip == Number(Civil(day)) = day /\ Number(Civil(LocalDay)) = LocalDay
Calendar == LET c == Civil(LocalDay) IN c[2] \in 1..12 /\ c[3] \in 1..Lengths(c[1])[c[2]]
Back == LocalDay * 1440 + LocalMinute - Shift = day * 1440 + minute
Fraction == Valid => 0 <= Elapsed /\ Elapsed < Length /\ Length \in {1825 * 1440, 1826 * 1440, 1827 * 1440}
\* the last minute before an epoch is one minute away from the next epoch's start
Joined == (Valid /\ minute = 1439 /\ YearOf(day + 1) # YearOf(day) /\ (YearOf(day + 1) - FirstYear) % Step = 0) => Elapsed + 1 = Length
\* writing it differently changes neither validity nor the position inside the epoch
Same == [][day' = day /\ minute' = minute]_vars
Emit == PrintT("@@" \o ToJson([civil |-> Civil(LocalDay), minute |-> LocalMinute, offset |-> offset, valid |-> Valid, instant |-> <<day, minute>>,
                              epoch |-> IF Valid THEN Epoch ELSE 0, elapsed |-> IF Valid THEN Elapsed ELSE 0, length |-> IF Valid THEN Length ELSE 1]))
==============================================================================
