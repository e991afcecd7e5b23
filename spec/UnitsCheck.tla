----------------------------- MODULE UnitsCheck -----------------------------
(* Judges what the implementation says about units against Units.              *)
EXTENDS Units, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

(* digits that must agree: 2^-44 relative, except where the definition itself  *)
(* is rounded by convention                                                    *)
TolOf(mn) == IF mn.tol > 0 THEN mn.tol ELSE 44

(* reported: scale vector sc, conversion factor cf, zero point off (in units   *)
(* of the written unit's storage scale: x is stored as x*cf + off)             *)
JudgeMeaning(mn, e, offUnit) ==
    IF e.d # mn.d THEN "dimension"
    ELSE IF ~IsNum(e.cf) \/ ~IsNum(e.off) THEN "factor is not a number"
    ELSE IF ~Close(QMul(ScaleQ(e.sc), NumQ(e.cf)), MagQ(mn), TolOf(mn)) THEN "magnitude"
    ELSE IF offUnit /\ mn.off.s = 0 /\ e.off.s # 0 THEN "zero point"
    ELSE IF offUnit /\ mn.off.s # 0 /\
            ~Close(NumQ(e.off), QMul(mn.off, NumQ(e.cf)), 44) THEN "zero point"
    ELSE IF e.sc[4] # mn.p /\ mn.tol = 0 /\ mn.p >= 0 THEN "power of pi"
    ELSE ""

UnitByName(n) == {i \in 1 .. Len(Catalogue) : Catalogue[i].name = n}

Verdict(e) ==
    CASE e.ev = "unit" ->      \* a row of the implementation's unit table
           LET S == UnitByName(e.name) IN
           IF S = {} THEN ""
           ELSE LET u == Catalogue[CHOOSE i \in S : TRUE]  mn == MeaningU(u, 0) IN
                IF \E k \in DOMAIN e.syms : \E j \in Listed :
                       e.syms[k] \in WholeWords(Catalogue[j]) /\ Catalogue[j].name # e.name
                THEN "symbol belongs to another unit"
                ELSE JudgeMeaning(mn, e, TRUE)
      [] e.ev = "resolve" ->   \* a written unit
           LET u == Catalogue[e.i]  mn == MeaningU(u, e.e) IN
           (CASE e.kind = "form" -> IF ~e.ok THEN (IF e.opt THEN "" ELSE "not recognised")
                                   ELSE JudgeMeaning(mn, e, ~e.opt)
             [] e.kind = "alien" -> IF ~e.ok THEN "" ELSE JudgeMeaning(mn, e, FALSE)
             [] e.kind = "double" -> IF e.ok THEN "accepted a doubled prefix" ELSE "")
      [] e.ev = "prefix" ->    \* a row of the implementation's prefix table
           LET S == {p \in 1 .. Len(Prefixes) : Prefixes[p].name = e.name} IN
           IF S = {} THEN "unknown prefix"
           ELSE LET p == Prefixes[CHOOSE p \in S : TRUE] IN
                IF p.e # e.e THEN "power of ten"
                ELSE IF Range(e.syms) # Range(p.syms) THEN "symbols" ELSE ""
      [] e.ev = "prefixes" -> IF e.n # Len(Prefixes) THEN "a prefix is missing or added" ELSE ""
      [] e.ev = "dimension" -> \* a dimension's units all have its exponents; its symbol is unique
           IF \E k \in DOMAIN e.units : e.units[k] # e.d THEN "unit filed under another dimension" ELSE ""
      [] OTHER -> "unknown event"

VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
