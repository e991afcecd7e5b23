------------------------------ MODULE Declare -------------------------------
(* Declaring a number in a written unit.  A declaration is                     *)
(*   [syn |-> syntax, i |-> unit, e |-> power of ten of the prefix,            *)
(*    x |-> written number, nt |-> its machine type, t |-> storage type,       *)
(*    b |-> brand]                                                             *)
(* and stores, at the scale s of the written unit, the number v with           *)
(*   v * Scale(s) = (x + off) * magnitude of the unit                          *)
(* up to the rounding of the storage type; exactly when the unit is itself a   *)
(* scale.                                                                      *)
EXTENDS Rescale, Units

UnitOf(j) == MeaningU(Catalogue[j.i], j.e)
(* the unit is the scale s itself: numbers are stored as they are written *)
StoredAsIs(mn, s) == mn.off.s = 0 /\ QEq(ScaleQ(s), MagQ(mn))
(* conversion of x, and the size of the terms that are added *)
Stored(mn, s, x) == QDiv(QMul(QAdd(x, mn.off), MagQ(mn)), ScaleQ(s))
Terms(mn, s, x) == QDiv(QMul(QAdd(QAbs(x), QAbs(mn.off)), MagQ(mn)), ScaleQ(s))
(* relative error allowed to the conversion, as a power of 1/2; conventional   *)
(* roundings in the definition of some units come on top                       *)
DTol(mn, t) == LET k == IF t = "f32" THEN 21 ELSE 44 IN IF mn.tol > 0 /\ mn.tol < k THEN mn.tol ELSE k

DeclaredOK(mn, s, x, t, v) ==
    LET y == Stored(mn, s, x)
        err == QMul(Terms(mn, s, x), P2(-DTol(mn, t)))
    IN IF StoredAsIs(mn, s) /\ (IsFloat(t) \/ QIsInt(x)) THEN
           (IF IsFloat(t) THEN Answers(v, t, x, Prec(t)) ELSE IF Fits(t, x) THEN v.k = "i" /\ QEq(NumQ(v), x) ELSE TRUE)
       ELSE IF IsFloat(t) THEN IsNum(v) /\ (Within(NumQ(v), y, err) \/ QLe(FTop(t), QAbs(y)) \/ Within(NumQ(v), y, QMul(FTiny(t), P2(-20))))
       \* integers: truncated; beyond the storage type nothing is promised
       ELSE IF Fits(t, QTrunc(QAdd(y, QAdd(err, Q1)))) /\ Fits(t, QTrunc(QSub(y, QAdd(err, Q1))))
            THEN v.k = "i" /\ QLe(QAbs(QSub(NumQ(v), y)), QAdd(err, Q1)) /\ QLe(QSub(QAbs(NumQ(v)), QAbs(y)), err)
       ELSE TRUE
=============================================================================
