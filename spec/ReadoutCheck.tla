---------------------------- MODULE ReadoutCheck ----------------------------
(* Judges histories: a declaration, then read-outs of the declared quantity;   *)
(* and whether pairs that do not fit are refused.                              *)
EXTENDS Readout, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zT, zL, zR
Init == zT \in 1 .. Len(Trace) /\ zL = 0 /\ zR = [k |-> "none"]
Fit(e) == Exact(e.A).d = Exact(e.B).d /\ e.t = e.t2 /\ e.b = e.b2
Step(tr, e) ==
    CASE e.op = "pair" -> (IF e.acc = Fit(e) THEN "" ELSE IF e.acc THEN "a read-out that does not fit the quantity is accepted" ELSE "a fitting read-out is refused")
      [] e.op = "declare" ->
           (LET mn == Exact(e.u) IN
            IF e.d # mn.d THEN "dimension exponents" ELSE IF e.s # e.ref THEN "scale exponents"
            ELSE IF ~DeclaredOK(mn, e.s, NumQ(e.x), e.t, e.v) THEN "declared number" ELSE "")
      [] e.op = "read" -> (IF ReadOK(Exact(e.u), e.ref, zR.t, zR.s, zR.v, e.y) THEN "" ELSE "number read")
Next == /\ zL < Len(Trace[zT].ev)
        /\ zL' = zL + 1 /\ zT' = zT
        /\ LET e == Trace[zT].ev[zL']  w == Step(Trace[zT], e) IN
           /\ zR' = (IF e.op = "declare" THEN [t |-> e.t, s |-> e.s, v |-> e.v] ELSE zR)
           /\ (w = "" \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> w])))
=============================================================================
