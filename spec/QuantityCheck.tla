--------------------------- MODULE QuantityCheck ----------------------------
(* Checks recorded histories of the implementation against Quantity.           *)
EXTENDS Quantity, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zT, zL, zReg
Init == zT \in 1 .. Len(Trace) /\ zL = 0 /\ zReg = [none |-> TRUE]
Next == /\ zL < Len(Trace[zT].ev)
        /\ zL' = zL + 1 /\ zT' = zT
        /\ LET e == Trace[zT].ev[zL'] IN
           IF e.op = "new" THEN zReg' = e.q /\ (e.o = e.q \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> "construction"])))
           ELSE LET w == Judge(zReg, e) IN
                /\ zReg' = e.o
                /\ (w = "" \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> w, exp |-> ResultType(zReg, e)])))
=============================================================================
