----------------------------- MODULE TwinCheck ------------------------------
(* One program, two builds: the register machine allows each history (judged by *)
(* the other modules), and the two builds answer alike.                         *)
EXTENDS Quantity, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
Panicked(o) == o.v.k = "panic"
SameUnit(a, b) == a.d = b.d /\ a.s = b.s /\ a.t = b.t /\ a.b = b.b
SameOut(a, b) == IF Panicked(a) \/ Panicked(b) THEN Panicked(a) /\ Panicked(b) ELSE SameUnit(a, b) /\ a.v = b.v
(* the sixteen-bit exponents: the machine's guard in the wide build              *)
InRange(v) == \A i \in DOMAIN v : v[i] >= -32768 /\ v[i] <= 32767
WideAccepts(e) == InRange(CASE e.op = "*q" -> VAdd(e.p, e.q) [] e.op = "/q" -> VSub(e.p, e.q) [] e.op = "/l" -> VNeg(e.p) [] OTHER -> e.p)
Verdict(e) ==
    CASE e.ev = "program" -> (IF e.stable = e.cge THEN "" ELSE "the builds do not accept the same program")
      [] e.ev = "history" -> (IF Len(e.stable) # Len(e.cge) THEN "the builds stop at different steps"
                              ELSE LET bad == {i \in DOMAIN e.stable : ~SameOut(e.stable[i], e.cge[i])} IN
                                   IF bad = {} THEN "" ELSE IF \E i \in bad : Panicked(e.stable[i]) # Panicked(e.cge[i]) THEN "only one build panics"
                                   ELSE IF \E i \in bad : ~SameUnit(e.stable[i], e.cge[i]) THEN "the builds give different units" ELSE "the builds give different numbers")
      [] e.ev = "wide" -> (IF e.acc = WideAccepts(e) THEN "" ELSE IF e.acc THEN "accepted outside the range of exponents" ELSE "rejected inside the range of exponents")
VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk'])))
=============================================================================
