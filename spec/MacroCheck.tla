----------------------------- MODULE MacroCheck -----------------------------
(* Judges recorded evaluations: what was logged, and that the macro gave what  *)
(* it gives for the plain number.                                              *)
EXTENDS Macro, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zI, zOk
Judge(e) ==
    LET r == Eval(e.e, Env(e.names)) IN
    IF ~e.acc THEN "an ordinary expression is refused"
    ELSE IF e.log # r.log THEN (IF Len(e.log) > Len(r.log) THEN "the expression is evaluated more than once" ELSE IF Len(e.log) < Len(r.log) THEN "a part of the expression is not evaluated" ELSE "the order of evaluation")
    ELSE IF r.x THEN (IF e.res.k = "left" /\ e.res.v = r.v THEN "" ELSE "the surrounding function is not left with the value")
    ELSE IF e.res.k # "value" THEN "the surrounding function is left"
    ELSE IF e.res.out # e.ref THEN "the result is not that of the plain number" ELSE ""
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Judge(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
