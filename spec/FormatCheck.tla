----------------------------- MODULE FormatCheck ----------------------------
(* Judges formatted texts.                                                     *)
EXTENDS Format, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Verdict(e) == FormatOK(e.d, e.s, NumQ(e.v), e.prec, e.u, e.o)
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
