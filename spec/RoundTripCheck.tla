--------------------------- MODULE RoundTripCheck ---------------------------
(* Follows recorded histories: a quantity is written, the document is read at  *)
(* several types.  State: the quantity in memory when it was written.          *)
EXTENDS RoundTrip, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zT, zL, zQ
Fresh == [d |-> VZero(8), s |-> VZero(4), v |-> Q0]
Verdict(e) == CASE e.op = "write" -> WriteOK(e.d, e.s, NumQ(e.v), e.doc)
                [] e.op = "nothing" -> (IF InRange("f64", QMul(NumQ(e.v), ScaleQ(e.s))) /\ InRange("f64", ScaleQ(e.s)) THEN "nothing is written" ELSE "")
                [] e.op = "back" -> (IF e.r.ok /\ (e.r.d # e.d \/ e.r.s # e.s \/ e.r.b # e.b) THEN "the result is not of the requested type"
                                     ELSE BackOK(zQ.d, zQ.s, zQ.v, e.d, e.s, e.r))
Init == zT \in 1 .. Len(Trace) /\ zL = 0 /\ zQ = Fresh
Next == /\ zL < Len(Trace[zT].ev)
        /\ zL' = zL + 1 /\ zT' = zT
        /\ LET e == Trace[zT].ev[zL']  w == Verdict(e) IN
           /\ zQ' = (IF e.op \in {"write", "nothing"} THEN [d |-> e.d, s |-> e.s, v |-> NumQ(e.v)] ELSE zQ)
           /\ (w = "" \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> w])))
=============================================================================
