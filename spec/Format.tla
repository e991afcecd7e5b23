------------------------------- MODULE Format -------------------------------
(* Formatting a stored quantity in a requested unit: the text must be          *)
(*   <number> <the unit as requested>                                          *)
(* or say that it cannot be done.                                              *)
EXTENDS UnitText
(* decimal texts [s, m, e]: s * m * 10^e *)
DecQ(x) == QMul(Q(x.s, x.m, One), P10(x.e))
(* number stored as v at scale s, in the unit mn, up to err *)
Shown(mn, s, v) == QSub(QMul(v, QDiv(ScaleQ(s), MagQ(mn))), mn.off)
ShownErr(mn, s, v) == QMul(QAdd(QMul(QAbs(v), QDiv(ScaleQ(s), MagQ(mn))), QAbs(mn.off)), P2(-(IF DTol(mn, "f64") < 42 THEN DTol(mn, "f64") ELSE 42)))
Half(p) == QMul(QInv(QInt(2)), P10(-p))
(* o: [k |-> "num", x |-> decimal, p |-> decimals printed, unit |-> the rest is *)
(* the requested unit], [k |-> "text", digits |-> a number occurs besides the unit] *)
PrintedOK(mn, s, v, prec, o) ==
    IF o.k # "num" THEN "no number although the unit fits"
    ELSE IF ~o.unit THEN "the number is not followed by the requested unit"
    ELSE IF prec >= 0 /\ o.p >= 0 /\ o.p # prec THEN        \* (infinities have no places)
         "precision not honoured"
    ELSE LET z == Shown(mn, s, v)  q == QDiv(ScaleQ(s), MagQ(mn)) IN
         IF ~InRange("f64", z) \/ ~InRange("f64", QMul(v, ScaleQ(s))) \/ ~InRange("f64", q) \/ ~InRange("f64", MagQ(mn)) \/ ~InRange("f64", QMul(v, q)) THEN ""
         ELSE IF Within(DecQ(o.x), z, IF prec >= 0 THEN QAdd(Half(prec), ShownErr(mn, s, v)) ELSE ShownErr(mn, s, v)) THEN "" ELSE "number"
Refusal(o) == IF o.k = "num" THEN "a number although the unit does not exist or has another dimension"
              ELSE IF o.digits THEN "the refusal contains a number" ELSE ""
FormatOK(d, s, v, prec, u, o) ==
    LET m == Reading(u) IN
    CASE m.st = "bad" -> Refusal(o)
      [] m.st = "bad?" -> ""
      [] m.st = "dims" -> (IF Len(m.d) > 0 /\ m.d # d THEN Refusal(o) ELSE "")
      [] m.d # d -> Refusal(o)
      [] OTHER -> PrintedOK(m.mn, s, v, prec, o)
=============================================================================
