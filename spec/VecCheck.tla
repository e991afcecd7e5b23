------------------------------ MODULE VecCheck ------------------------------
(* The exponent vectors of the core crate (type-level, dynamic and scale): the *)
(* module behind every unit computed at compile or run time.                   *)
EXTENDS Num, Json, IOUtils, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

Expected(e) ==
    CASE e.op \in {"tadd", "dadd", "dtadd", "smul"} -> VAdd(e.a, e.b)
      [] e.op = "tsub" -> VSub(e.a, e.b)
      [] e.op \in {"dmul", "sexp"} -> VMul(e.a, e.n)
      [] e.op \in {"dneg", "sneg"} -> VNeg(e.a)
      [] e.op = "tval" -> e.a
      [] e.op = "zero" -> (IF e.a = VZero(8) THEN <<1>> ELSE <<0>>)
      [] e.op = "log10" -> (IF e.a[2] = 0 /\ e.a[4] = 0 /\ e.a[1] = e.a[3] THEN <<e.a[1]>> ELSE <<>>)
      [] e.op = "s2" -> <<e.n, 0, 0, 0>> [] e.op = "s3" -> <<0, e.n, 0, 0>> [] e.op = "s5" -> <<0, 0, e.n, 0>>
      [] e.op = "spi" -> <<0, 0, 0, e.n>> [] e.op = "s6" -> <<e.n, e.n, 0, 0>> [] e.op = "s10" -> <<e.n, 0, e.n, 0>>
Verdict(e) == IF e.r = Expected(e) THEN "" ELSE "exponents"

VARIABLES zI, zOk
Init == zI \in 1 .. Len(Trace) /\ zOk = "?"
Next == /\ zOk = "?" /\ zI' = zI /\ zOk' = Verdict(Trace[zI])
        /\ (zOk' = "" \/ PrintT("@@" \o ToJson([i |-> zI, why |-> zOk', exp |-> Expected(Trace[zI])])))
=============================================================================
