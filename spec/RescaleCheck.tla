---------------------------- MODULE RescaleCheck ----------------------------
(* Histories of rescalings [t, from, ev: <<[to, o]>>]: every step multiplies   *)
(* by the true ratio; and the number that comes back to the first scale is the *)
(* original to within the steps' rounding.                                     *)
EXTENDS Rescale, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zT, zL, zS, zV
Init == zT \in 1 .. Len(Trace) /\ zL = 0 /\ zS = <<>> /\ zV = [k |-> "none"]
JudgeStep(tr, e) ==
    IF e.op = "new" THEN ""
    ELSE IF e.d # tr.d THEN "dimension changed"
    ELSE IF e.s # e.to THEN "scale is not the requested one"
    ELSE IF ~NumbersOK(tr.ty, zV, zS, e.to, e.v) THEN "number"
    ELSE ""
Next == /\ zL < Len(Trace[zT].ev)
        /\ zL' = zL + 1 /\ zT' = zT
        /\ LET e == Trace[zT].ev[zL']  w == JudgeStep(Trace[zT], e) IN
           /\ zS' = (IF e.v.k = "panic" THEN zS ELSE e.s) /\ zV' = e.v
           /\ (w = "" \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> w])))
=============================================================================
