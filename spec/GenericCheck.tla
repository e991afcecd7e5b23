---------------------------- MODULE GenericCheck ----------------------------
(* Judges which quantity types satisfy dimension traits.                       *)
EXTENDS GenericDim, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Verdict(e) ==
    LET st == [j \in DOMAIN e.alts |-> Status(e.alts[j])]
        ds == {DimD(e.alts[j]) : j \in {j \in DOMAIN e.alts : Readable(e.alts[j])}}
    IN IF ~e.acc THEN
          \* the same dimension twice may be refused
          (IF (\A j \in DOMAIN st : st[j] = "good") /\ Cardinality(ds) = Len(e.alts) THEN "a definition is rejected" ELSE "")
       ELSE IF \E j \in DOMAIN st : st[j] = "bad" THEN "a malformed or unknown dimension is accepted"
       ELSE IF \E j \in DOMAIN st : ~Readable(e.alts[j]) THEN ""
       ELSE IF \E k \in DOMAIN e.ask : e.ask[k].sat /\ e.ask[k].d \notin ds THEN "a quantity of another dimension satisfies the trait"
       ELSE IF \E k \in DOMAIN e.ask : ~e.ask[k].sat /\ e.ask[k].d \in ds THEN "a quantity of the dimension does not satisfy the trait"
       ELSE ""
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
