---------------------------- MODULE FeaturesCheck ---------------------------
(* Judges what the selections of features were seen to offer and to answer.    *)
EXTENDS Features, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Set(s) == {s[i] : i \in DOMAIN s}
Verdict(e) ==
    CASE e.ev = "offer" -> (IF e.acc = Offers(Set(e.f), e.o) THEN "" ELSE IF e.acc THEN "offered without the feature it takes" ELSE "not offered by this selection of features")
      [] e.ev = "program" -> (IF e.one = e.two THEN "" ELSE "a program is accepted only in one of two crates")
      [] e.ev = "history" -> (IF Len(e.one) # Len(e.two) THEN "the selections stop at different steps"
                              ELSE IF \A i \in DOMAIN e.one : Alike(e.one[i], e.two[i]) THEN "" ELSE "the selections answer differently")
      [] e.ev = "link" -> (IF e.acc THEN "" ELSE "needs an allocator or the standard library")
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
