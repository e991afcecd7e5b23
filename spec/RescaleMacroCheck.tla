------------------------- MODULE RescaleMacroCheck --------------------------
(* Judges rescale!(quantity, unit, type): the program is accepted when the     *)
(* unit fits and is itself a scale, and yields the same physical quantity,     *)
(* stored in that unit.                                                        *)
EXTENDS Readout, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Fits2(e) == Exact(e.A).d = Exact(e.B).d /\ e.t = e.t2 /\ e.b = "()"
Verdict(e) ==
    LET mn == Exact(e.B) IN
    IF ~Fits2(e) THEN (IF e.acc THEN "rescale! accepts a unit, storage type or brand that does not fit" ELSE "")
    \* a unit made of units that are scales is one
    ELSE IF ~e.acc THEN (IF e.plain THEN "rescale! refuses a fitting unit" ELSE "")
    ELSE IF e.d # mn.d THEN "dimension"
    ELSE IF e.ot # e.t \/ e.ob # e.b THEN "storage type or brand"
    ELSE IF mn.off.s = 0 /\ ~StoredAsIs(mn, e.s) THEN "scale of the result is not the unit"
    ELSE IF ~NumbersOK(e.t, e.v, e.s0, e.s, e.y) THEN "number"
    ELSE ""
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
