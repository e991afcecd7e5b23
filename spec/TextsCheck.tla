----------------------------- MODULE TextsCheck -----------------------------
(* Judges rewritten texts, piece by piece.                                     *)
EXTENDS Texts, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Known8(e) == e.ud = <<>> /\ e.us = <<>>
Verdict(e) ==
    CASE e.k = "text" -> (IF e.panic THEN "panics" ELSE IF ~e.aligned THEN "the text around the types is changed"
                          ELSE IF e.raw = "other" THEN "the raw text is not the original"
                          ELSE IF e.raw = "none" /\ e.wantraw /\ e.changed THEN "the raw text is missing" ELSE "")
      [] e.k = "q" -> (IF e.res = "kept" THEN (IF e.need = "must" /\ Known8(e) THEN "the type is not replaced" ELSE "")
                       ELSE IF e.res # "shown" THEN "the displayed type cannot be read"
                       ELSE IF ~e.ty THEN "storage type" ELSE IF ~e.br THEN "brand"
                       ELSE LET w == UnitOK(e.ts, e.d, e.s, e.ud, e.us) IN
                            IF w # "" THEN w ELSE IF e.verbose /\ ~ListingsOK(e) THEN "listed exponents" ELSE "")
      [] e.k = "garbage" -> (IF e.panic THEN "panics" ELSE IF e.must /\ ~e.same THEN "text without quantity types is changed" ELSE "")
      [] e.k = "hint" -> (IF ~e.anchors THEN "what is attached to the parts of the hint is changed"
                          ELSE IF ~e.rest THEN "other members of the hint are changed" ELSE IF ~e.edits THEN "edits are changed" ELSE "")
      [] e.k = "edit" -> (IF ~e.single THEN "a unit is inserted for a hint that is not a single quantity"
                          ELSE IF ~e.ty THEN "storage type of the inserted unit" ELSE IF ~e.br THEN "brand of the inserted unit"
                          ELSE MacroOK(e.ts, e.d, e.s, e.ud, e.us))
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
