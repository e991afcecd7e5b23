------------------------------ MODULE Rescale -------------------------------
(* Rescaling: the same physical quantity at another scale.                     *)
EXTENDS Quantity

RECURSIVE AbsSum(_, _)
AbsSum(a, i) == IF i = 0 THEN 0 ELSE (IF a[i] < 0 THEN -a[i] ELSE a[i]) + AbsSum(a, i - 1)

(* ---- floats: the true ratio of the scales ---- *)
RatioQ(from, to) == ScaleQ(VSub(from, to))
(* Rounding grows at most linearly with the exponents of 3, 5 and pi (powers   *)
(* of two are exact): 2*(n + 8) units of 2^-Prec                               *)
FloatTol(t, df) == IF t = "f32" THEN QMul(QInt(4), P2(-24))
                   ELSE QMul(QInt(2 * (AbsSum(<<df[2], df[3], 2 * df[4]>>, 3) + 8)), P2(-53))
CloseTo(x, y, tol) == QLe(QAbs(QSub(x, y)), QMul(QAbs(y), tol))
FloatOK(t, v, from, to, o) ==
    LET df == VSub(from, to)  r == RatioQ(from, to) IN
    IF v.k = "nan" THEN o.k = "nan"
    ELSE IF v.k \in {"inf", "-inf"} THEN o.k = v.k
    ELSE LET x == QMul(NumQ(v), r) IN
         IF x.s = 0 THEN IsNum(o) /\ NumQ(o).s = 0 /\ IsNZ(o) = IsNZ(v)     \* the factor is positive
         ELSE IF QLe(QMul(QMul(FTop(t), QInt(2)), QAdd(Q1, FloatTol(t, df))), QAbs(x)) THEN o.k = (IF x.s > 0 THEN "inf" ELSE "-inf")
         ELSE IF QLe(FTop(t), QAbs(x)) /\ ~IsNum(o) THEN o.k = (IF x.s > 0 THEN "inf" ELSE "-inf")
         ELSE IsNum(o) /\ (CloseTo(NumQ(o), x, FloatTol(t, df)) \/ (QLe(QAbs(x), FTiny(t)) /\ Within(NumQ(o), x, QMul(QInt(2), FStep(t)))))

(* ---- integers: pi is 355/113 ---- *)
Pos(x) == IF x > 0 THEN x ELSE 0
PowN(b, k) == BPow(BFromNat(b), k)
FNum(df) == BMul(BMul(PowN(2, Pos(df[1])), PowN(3, Pos(df[2]))), BMul(PowN(5, Pos(df[3])), BMul(PowN(355, Pos(df[4])), PowN(113, Pos(-df[4])))))
FDen(df) == BMul(BMul(PowN(2, Pos(-df[1])), PowN(3, Pos(-df[2]))), BMul(PowN(5, Pos(-df[3])), BMul(PowN(355, Pos(-df[4])), PowN(113, Pos(df[4])))))
I128 == QSub(P2(127), Q1)
(* v, o: stored and resulting machine numbers                                  *)
IntOK(t, v, from, to, o) ==
    LET df == VSub(from, to)
        N == FNum(df)  D == FDen(df)
        r == Q(1, N, D)                                 \* reduced
        x == QMul(NumQ(v), r)
        exact == QTrunc(x)
    IN IF ~QLe(QBig(N), I128) \/ ~QLe(QBig(D), I128)     \* the factor itself is out of reach
       THEN o.k = "panic" \/ (o.k = "i" /\ QEq(NumQ(o), exact))
       ELSE IF ~Fits(t, exact) THEN o.k = "panic"
       ELSE o.k = "i" /\ QEq(NumQ(o), exact)
NumbersOK(t, v, from, to, o) == IF IsFloat(t) THEN FloatOK(t, v, from, to, o) ELSE IntOK(t, v, from, to, o)
=============================================================================
