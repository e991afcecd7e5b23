---------------------------- MODULE DeclareCheck ----------------------------
(* Judges declared quantities.                                                 *)
EXTENDS Declare, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

Verdict(e) ==
    LET mn == UnitOf(e) IN
    IF ~e.acc
    THEN IF e.syn \in {"u", "uT"} THEN (IF StoredAsIs(mn, e.ref) THEN "unit! rejects a unit that is stored as it is" ELSE "")
         ELSE IF e.must THEN "the declaration is rejected" ELSE ""
    ELSE IF e.d # mn.d THEN "dimension exponents"
    ELSE IF e.s # e.ref THEN "scale exponents differ from the unit's"
    ELSE IF e.ob # e.b THEN "brand"
    ELSE IF e.syn \in {"u", "uT"} THEN (IF e.ot # e.t THEN "storage type" ELSE IF mn.off.s # 0 \/ StoredAsIs(mn, e.s) THEN "" ELSE "unit! accepts a unit that is not stored as it is")
    \* a method or literal may store an integer in f64; macros with a type may not
    ELSE IF e.ot # e.t /\ ~(e.syn \in {"mi", "li", "qi", "lT", "mT"} /\ e.ot = "f64") THEN "storage type"
    ELSE IF ~DeclaredOK(mn, e.s, NumQ(e.x), e.ot, e.v) THEN "stored number"
    ELSE ""
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
