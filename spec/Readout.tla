------------------------------ MODULE Readout -------------------------------
(* Reading a stored quantity in a written unit.  The number read is            *)
(*   v * Scale(s) / magnitude of the unit - zero point of the unit,            *)
(* exactly as rescaling prescribes when the unit is itself a scale, otherwise  *)
(* up to the rounding of the storage type.                                     *)
EXTENDS Declare, UnitExpr

(* the exact meaning of a unit expression over the catalogue; point scales     *)
(* have one only standing alone                                                *)
U1 == [d |-> VZero(8), m |-> Q1, p |-> 0, off |-> Q0, tol |-> 0]
MinTol(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b
XPow(u, n) == [d |-> VMul(u.d, n), m |-> QPow(u.m, n), p |-> u.p * n, off |-> IF n = 1 THEN u.off ELSE Q0, tol |-> IF u.tol = 0 THEN 0 ELSE u.tol - 4]
XMul(a, b) == [d |-> VAdd(a.d, b.d), m |-> QMul(a.m, b.m), p |-> a.p + b.p, off |-> Q0, tol |-> MinTol(a.tol, b.tol)]
RECURSIVE Exact(_)
Exact(e) ==
    CASE e.k = "atom" -> XPow(Meaning(WordForm[e.w]), e.n)
      [] e.k = "num" -> (IF e.v = 1 THEN U1 ELSE [U1 EXCEPT !.m = QInt(10)])
      [] e.k = "pow" -> XPow(Exact(e.a), e.n)
      [] e.k = "mul" -> XMul(Exact(e.a), Exact(e.b))
      [] e.k = "div" -> XMul(Exact(e.a), XPow(Exact(e.b), -1))

(* number at the scale s2 of the unit before the last conversion *)
Scaled(v, s, s2) == QMul(v, QDiv(ScaleQ(s), ScaleQ(s2)))
InRange(t, x) == x.s = 0 \/ (QLe(QAbs(x), P2(IF t = "f32" THEN 125 ELSE 1020)) /\ QLe(P2(IF t = "f32" THEN -124 ELSE -1020), QAbs(x)))
Reachable(df) == QLe(QBig(FNum(df)), I128) /\ QLe(QBig(FDen(df)), I128)
(* v: stored at scale s in a quantity of type t; y: what reading it in mn gives *)
ReadOK(mn, s2, t, s, v, y) ==
    IF StoredAsIs(mn, s2) THEN NumbersOK(t, v, s, s2, y)
    ELSE IF ~IsNum(v) THEN TRUE
    ELSE LET df == VSub(s, s2)
             x == IF IsFloat(t) THEN Scaled(NumQ(v), s, s2) ELSE QMul(NumQ(v), Q(1, FNum(df), FDen(df)))   \* for integers pi is 355/113
             r == QDiv(ScaleQ(s2), MagQ(mn))              \* last conversion
             z == QSub(QMul(x, r), mn.off)
             terms == QAdd(QMul(QAbs(x), r), QAbs(mn.off))
             err == QMul(terms, P2(-(IF DTol(mn, t) < 42 THEN DTol(mn, t) ELSE 42)))
         IN IF IsFloat(t)
            THEN ~InRange(t, x) \/ ~InRange(t, z) \/ (IsNum(y) /\ Within(NumQ(y), z, err))
            \* an integer is cut towards zero at the scale of the unit first, and again at the end
            ELSE LET zi == QSub(QMul(QTrunc(x), r), mn.off)
                     e == QMul(QAdd(QMul(QAbs(QTrunc(x)), r), QAbs(mn.off)), P2(-(IF DTol(mn, t) < 42 THEN DTol(mn, t) ELSE 42)))
                     lo == QTrunc(QSub(zi, e))  hi == QTrunc(QAdd(zi, e))
                     cut == y.k = "i" /\ QLe(lo, NumQ(y)) /\ QLe(NumQ(y), hi)
                 IN IF ~Fits(t, QTrunc(x)) \/ ~Reachable(df) THEN y.k = "panic" \/ cut
                    ELSE ~Fits(t, lo) \/ ~Fits(t, hi) \/ cut
=============================================================================
