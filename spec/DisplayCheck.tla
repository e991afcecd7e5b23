---------------------------- MODULE DisplayCheck ----------------------------
(* Judges displayed quantities.                                                *)
EXTENDS Display, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
(* listed exponents: exactly the nonzero ones *)
DimKeys == <<"mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle">>
ScaleKeys == <<"2", "3", "5", "{pi}">>
Listing(l, keys, v) == /\ \A i \in DOMAIN l : \E j \in DOMAIN keys : l[i].key = keys[j] /\ l[i].n = v[j]
                       /\ \A j \in DOMAIN keys : v[j] # 0 => Cardinality({i \in DOMAIN l : l[i].key = keys[j]}) = 1
                       /\ Len(l) = Cardinality({j \in DOMAIN keys : v[j] # 0})
ValueOK(e) == ~IsNum(e.v) \/ (e.shown.k = "dec" /\ Digits(DecVal(e.shown.x), NumQ(e.v), 5))
Verdict(e) ==
    IF ~e.read THEN "the display cannot be read"
    ELSE IF e.ty # e.t THEN "storage type"
    ELSE IF e.br # e.b THEN "brand"
    ELSE IF ~ValueOK(e) THEN "printed number"
    ELSE IF e.verbose /\ (~Listing(e.ss, ScaleKeys, e.s) \/ ~Listing(e.ds, DimKeys, e.d)) THEN "listed exponents"
    ELSE NameOK(e.ts, e.d, e.s)
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
