---------------------------- MODULE CompareCheck ----------------------------
(* Comparisons of two quantities of one type order the stored numbers; NaN is  *)
(* unordered.                                                                  *)
EXTENDS Quantity, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Order(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN 9
    ELSE IF a.k = b.k /\ a.k \in {"inf", "-inf"} THEN 0
    ELSE IF a.k = "inf" \/ b.k = "-inf" THEN 1
    ELSE IF a.k = "-inf" \/ b.k = "inf" THEN -1
    ELSE QCmp(NumQ(a), NumQ(b))
Verdict(e) == LET o == Order(e.a, e.b) IN
    IF e.o # o THEN "partial_cmp"
    ELSE IF e.lt # (o = -1) \/ e.gt # (o = 1) \/ e.eq # (o = 0) \/ e.ne # (o # 0) \/ e.le # (o \in {-1, 0}) \/ e.ge # (o \in {0, 1}) THEN "comparison operators"
    ELSE ""
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
