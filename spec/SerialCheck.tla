----------------------------- MODULE SerialCheck ----------------------------
(* Judges deserialisations.                                                    *)
EXTENDS Serial, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Refused(e) == IF e.r.ok THEN "malformed input is accepted" ELSE ""
TypeOK(e) == ~e.r.ok \/ (e.r.d = e.d /\ e.r.t = "f64" /\ e.r.b = e.b /\ (IF e.tk = "q" THEN e.r.s = e.s ELSE StoredAsIs(Exact(e.te), e.r.s)))
Verdict(e) ==
    IF ~TypeOK(e) THEN "the result is not of the requested type"
    ELSE LET s == IF e.r.ok THEN e.r.s ELSE <<0, 0, 0, 0>>
             r == IF e.r.ok THEN [ok |-> TRUE, v |-> e.r.v] ELSE [ok |-> FALSE] IN
    IF e.how \in {"text", "core"}
    THEN IF ~e.nok THEN Refused(e)
         ELSE Outcome(e.d, s, NumQ(e.x), e.u, r)
    ELSE LET q == Document(e.doc) IN
         IF ~q.ok THEN Refused(e)
         ELSE Outcome(e.d, s, NumQ(e.doc[q.num].v), e.doc[q.unit].u, r)
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
