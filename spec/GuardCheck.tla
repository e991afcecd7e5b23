----------------------------- MODULE GuardCheck -----------------------------
(* Judges which programs the real type checker accepted.                       *)
EXTENDS Quantity, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
QAccepts(e) == CASE e.op \in {"!=", "call"} -> SameType(e.p, e.q) [] OTHER -> Accepts(e.op, e.p, e.q)
(* a plain number can scale a quantity of its own storage type, nothing else   *)
SAccepts(e) == CASE e.op = "neg" -> IsSigned(e.p.t)
                 [] e.op \in {"*", "/", "%", "*=", "/=", "%=", "l*", "l/"} -> e.x = e.p.t
                 [] OTHER -> FALSE
Verdict(e) == LET a == IF e.k = "q" THEN QAccepts(e) ELSE SAccepts(e) IN
    IF a = e.acc THEN "" ELSE IF e.acc THEN "accepted" ELSE "rejected"
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
