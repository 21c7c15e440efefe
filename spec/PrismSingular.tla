--------------------------- MODULE PrismSingular ---------------------------
(* Batches of observation points over a collection of prisms: which points   *)
(* are answered with NaN, and whether the call warns.  A batch is built one  *)
(* point at a time; each point is placed relative to one prism of the        *)
(* collection (the prisms are far apart: it is outside all the others).      *)
EXTENDS PrismField

CONSTANTS NPrisms, MaxBatch

VARIABLES batch, done
svars == <<field, pos, phase, batch, done>>
SInit == /\ field \in GravFields \cup MagFields /\ pos = <<0,0,0>> /\ phase = "batch"
         /\ batch = <<>> /\ done = FALSE
AddPoint(q, p) == /\ ~done /\ Len(batch) < MaxBatch
                  /\ batch' = Append(batch, [prism |-> q, pos |-> p])
                  /\ UNCHANGED <<field, pos, phase, done>>
Call == ~done /\ batch # <<>> /\ done' = TRUE /\ UNCHANGED <<field, pos, phase, batch>>
SNext == Call \/ \E q \in 1..NPrisms, p \in Pos \X Pos \X Pos : AddPoint(q, p)
SSpec == SInit /\ [][SNext]_svars

Bad(i) == IF field \in MagFields THEN SingularM(batch[i].pos) ELSE SingularG(field, batch[i].pos)
Mask == [i \in 1..Len(batch) |-> Bad(i)]
\* gravity tensors warn when some point is singular; nothing else warns
Warns == field \in Tensor /\ \E i \in 1..Len(batch) : Bad(i)

\* adding a point never changes the verdict on the earlier ones
MaskMonotone == [][\A i \in 1..Len(batch) : batch'[i] = batch[i]]_svars
InvWarnIffNaN == (done /\ field \in GravFields) => (Warns <=> \E i \in 1..Len(batch) : Mask[i])
SEmit == done => PrintT("@@" \o ToJson([field |-> field, batch |-> batch, mask |-> Mask, warns |-> Warns]))
============================================================================
