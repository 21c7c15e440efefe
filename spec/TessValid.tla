------------------------------ MODULE TessValid ------------------------------
(* Which tesseroids and which observation points a forward model accepts.     *)
(* A request starts with a tesseroid and a point and is edited one bound or   *)
(* coordinate at a time.  Angles in degrees, radii in thousands of km.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lons, Lats, Radii, PLons, PLats, PRadii, MaxEdits, StartTess, StartPoints
VARIABLES tess, point, edits
vars == <<tess, point, edits>>
Init == tess \in StartTess /\ point \in StartPoints /\ edits = 0
More == edits < MaxEdits /\ edits' = edits + 1
Edit == More /\ UNCHANGED point /\
   \/ \E k \in {1, 2}, v \in Lons : tess' = [tess EXCEPT ![k] = v]
   \/ \E k \in {3, 4}, v \in Lats : tess' = [tess EXCEPT ![k] = v]
   \/ \E k \in {5, 6}, v \in Radii : tess' = [tess EXCEPT ![k] = v]
MovePoint == More /\ UNCHANGED tess /\
   \/ \E v \in PLons : point' = [point EXCEPT ![1] = v]
   \/ \E v \in PLats : point' = [point EXCEPT ![2] = v]
   \/ \E v \in PRadii : point' = [point EXCEPT ![3] = v]
\* the same request in other longitude conventions
TurnPoint == More /\ UNCHANGED tess /\ \E k \in {-1, 1} : point' = [point EXCEPT ![1] = @ + 360 * k]
InRange(l) == l >= -180 /\ l <= 360
TurnTess == More /\ UNCHANGED point /\ InRange(tess[1]) /\ InRange(tess[2]) /\ \E k \in {-1, 1} : InRange(tess[1] + 360 * k) /\ InRange(tess[2] + 360 * k)
                 /\ tess' = [tess EXCEPT ![1] = @ + 360 * k, ![2] = @ + 360 * k]
Next == Edit \/ MovePoint \/ TurnPoint \/ TurnTess
Spec == Init /\ [][Next]_vars
\* longitudes that are not ordered are read on [-180, 180)
Wrap(l) == ((l + 180) % 360) - 180
West(t) == IF t[1] > t[2] THEN Wrap(t[1]) ELSE t[1]
East(t) == IF t[1] > t[2] THEN Wrap(t[2]) ELSE t[2]
LonOk(t) == InRange(t[1]) /\ InRange(t[2]) /\ West(t) <= East(t) /\ East(t) - West(t) <= 360
LatOk(t) == t[3] >= -90 /\ t[4] <= 90 /\ t[3] <= t[4]
RadOk(t) == t[5] >= 0 /\ t[5] <= t[6]
Valid(t) == LonOk(t) /\ LatOk(t) /\ RadOk(t)
Inside(p, t) == /\ \E k \in -4..4 : West(t) < p[1] + 360 * k /\ p[1] + 360 * k < East(t)
                /\ t[3] < p[2] /\ p[2] < t[4] /\ t[5] < p[3] /\ p[3] < t[6]
Verdict(p, t) == IF ~Valid(t) THEN "invalid" ELSE IF Inside(p, t) THEN "inside" ELSE "ok"
\* the verdict does not depend on the longitude convention
Convention == [][(TurnPoint /\ ~Edit /\ ~MovePoint) \/ (TurnTess /\ tess[1] <= tess[2]) => Verdict(point', tess') = Verdict(point, tess)]_vars
Volume == Verdict(point, tess) = "inside" => West(tess) < East(tess) /\ tess[3] < tess[4] /\ tess[5] < tess[6]
Emit == PrintT("@@" \o ToJson([t |-> tess, p |-> point, v |-> Verdict(point, tess)]))
==============================================================================
