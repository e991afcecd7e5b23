------------------------------- MODULE Erase --------------------------------
(* Erasure of dimensionless and angular quantities.                            *)
EXTENDS Rescale

AngleSame == {"f32", "f64", "i16", "i32", "i64", "i128", "isize"}
AngleCross == {<<"f32", "f64">>, <<"f64", "f32">>, <<"i32", "f32">>, <<"i32", "f64">>, <<"i64", "f32">>, <<"i64", "f64">>,
               <<"f32", "i32">>, <<"f64", "i32">>, <<"f32", "i64">>, <<"f64", "i64">>}
MaxAngle == 9
OnlyAngle(d) == \A j \in 1 .. 7 : d[j] = 0
(* conversions to plain numbers the library offers *)
ToNumber(q, t) == /\ q.b = "()" /\ OnlyAngle(q.d)
                  /\ \/ q.d[8] = 0
                     \/ q.d[8] \in (-MaxAngle .. MaxAngle) /\ ((q.t = t /\ t \in AngleSame) \/ <<q.t, t>> \in AngleCross)
(* erasures of the angle from a compound quantity *)
ToQuantity(q, r) == q.b = r.b /\ q.t = r.t /\ q.s = r.s /\ (\A j \in 1 .. 7 : q.d[j] = r.d[j])
                    /\ (q.d[8] = r.d[8] \/ (r.d[8] = 0 /\ q.b = "()" /\ q.d[8] \in (-MaxAngle .. MaxAngle) /\ q.t \in AngleSame))
Offered(e) == IF e.to.k = "num" THEN ToNumber(e.q, e.to.t) ELSE ToQuantity(e.q, e.to.q)

Zero4 == <<0, 0, 0, 0>>
(* the number: same type, like rescaling to unit scale; another type, through  *)
(* an f64: o must be the conversion of some y within rounding of the value     *)
Tol(s) == QMul(QInt(2 * (AbsSum(<<s[2], s[3], 2 * s[4]>>, 3) + 8)), P2(-53))
CrossOK(q, t, o) ==
    IF ~IsNum(q.v) THEN (IsFloat(t) => o.k = q.v.k)                 \* no such integers: unspecified
    ELSE IF IsFloat(t) /\ IsZero(q.v) THEN IsZero(o) /\ IsNZ(o) = IsNZ(q.v)
    ELSE LET x == QMul(NumQ(q.v), ScaleQ(q.s))
             tol == QMul(QAbs(x), Tol(q.s))
             lo == QSub(x, tol)  hi == QAdd(x, tol) IN
         IF IsFloat(t) THEN (QLe(FTop(t), QAbs(x)) \/ QLe(QAbs(x), FTiny(t)) \/
                             (IsNum(o) /\ QLe(QAbs(QSub(NumQ(o), x)), QAdd(tol, QMul(QAbs(x), P2(-(Prec(t) - 1)))))))
         ELSE \/ ~Fits(t, QTrunc(lo)) \/ ~Fits(t, QTrunc(hi))        \* not representable: unspecified
              \/ (o.k = "i" /\ QLe(QTrunc(lo), NumQ(o)) /\ QLe(NumQ(o), QTrunc(hi)))
NumberErased(e) == IF e.q.t = e.to.t THEN NumbersOK(e.q.t, e.q.v, e.q.s, Zero4, e.o) ELSE CrossOK(e.q, e.to.t, e.o)
=============================================================================
