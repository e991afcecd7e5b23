----------------------------- MODULE EraseCheck -----------------------------
EXTENDS Erase, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Verdict(e) ==
    CASE e.ev = "offer" -> (IF e.acc = Offered(e) THEN "" ELSE IF e.acc THEN "a conversion that must not exist" ELSE "conversion missing")
      [] e.ev = "number" -> (IF NumberErased(e) THEN "" ELSE "represented value")
      [] e.ev = "quantity" -> (IF e.r.d # e.to.q.d \/ e.r.s # e.to.q.s \/ e.r.t # e.to.q.t \/ e.r.b # e.to.q.b THEN "type"
                               ELSE IF e.r.v # e.q.v THEN "stored number" ELSE "")
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
