----------------------------- MODULE GenericDim -----------------------------
(* Traits of quantities of given dimensions at any scale, defined by a list of *)
(* dimension expressions.  The expressions have the grammar of unit            *)
(* expressions over the names and symbols of dimensions, and 1.                *)
EXTENDS UnitExpr

DimWords == <<
  [w |-> "Mass", d |-> dMass], [w |-> "M", d |-> dMass], [w |-> "Length", d |-> dLen], [w |-> "L", d |-> dLen],
  [w |-> "Time", d |-> dTime], [w |-> "T", d |-> dTime], [w |-> "Current", d |-> dCur], [w |-> "I", d |-> dCur],
  [w |-> "Temperature", d |-> dTemp], [w |-> "{Theta}", d |-> dTemp], [w |-> "{theta}", d |-> dTemp],
  [w |-> "Amount", d |-> dAmt], [w |-> "N", d |-> dAmt], [w |-> "Luminosity", d |-> dLum], [w |-> "J", d |-> dLum], [w |-> "Cd", d |-> dLum],
  [w |-> "Angle", d |-> dAng], [w |-> "A", d |-> dAng],
  [w |-> "Area", d |-> dArea], [w |-> "Volume", d |-> dVol], [w |-> "Frequency", d |-> dFreq], [w |-> "Force", d |-> dForce],
  [w |-> "Energy", d |-> dEn], [w |-> "Power", d |-> dPow], [w |-> "Pressure", d |-> dPres], [w |-> "Capacitance", d |-> dCap],
  [w |-> "Inductance", d |-> dInd], [w |-> "Illuminance", d |-> dIll], [w |-> "TI", d |-> dChg] >>
(* accepted by some implementations, not promised *)
MaybeWords == {"dimensionless", "TI", "Cd", "{theta}"}
DimNames == {x.w : x \in Range(DimWords)}
DimOf == [w \in DimNames |-> [d |-> (CHOOSE x \in Range(DimWords) : x.w = w).d, sc |-> VZero(4), cf |-> [k |-> "none"], off |-> Q0]]
Predefined == <<"Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle">>

RECURSIVE HasTen(_)
HasTen(e) == CASE e.k = "num" -> e.v = 10 [] e.k = "atom" -> FALSE [] e.k = "pow" -> HasTen(e.a) [] OTHER -> HasTen(e.a) \/ HasTen(e.b)
(* what a dimension expression is: "bad", "maybe" (it need not be accepted) or "good" *)
Status(ts) ==
    LET p == Parse(ts) IN
    IF Unspecified(ts) /\ ~p.ok THEN "maybe"
    ELSE IF ~p.ok \/ HasTen(p.e) THEN "bad"
    ELSE IF \E w \in Words(p.e) : w \notin DimNames /\ w \notin MaybeWords THEN "bad"
    ELSE IF "dimensionless" \in Words(p.e) THEN "maybe"
    ELSE LET m == MeaningX(p.e, DimOf) IN
         IF ~FitsV(m.d) THEN "bad" ELSE IF ~m.fit \/ Words(p.e) \intersect MaybeWords # {} THEN "maybe" ELSE "good"
DimD(ts) == LET p == Parse(ts) IN MeaningX(p.e, [w \in Words(p.e) |-> IF w \in DimNames THEN DimOf[w] ELSE [d |-> VZero(8), sc |-> VZero(4), cf |-> [k |-> "none"], off |-> Q0]]).d
Readable(ts) == Parse(ts).ok
=============================================================================
