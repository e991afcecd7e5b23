----------------------------- MODULE RescaleGen -----------------------------
(* Histories of rescalings that return to their first scale, over every axis   *)
(* and every exponent of the library's tables and beyond, and stored numbers   *)
(* at the places where the arithmetic changes regime.                          *)
EXTENDS Rescale, Rand, Json
CONSTANTS Seed, NChains, Ints, Sweep, Far

Ts == IF Ints THEN SubSeq(Types, 3, 14) ELSE SubSeq(Types, 1, 2)
Lims == <<50, 50, 50, 4>>       \* differences within 100, 100, 100, 8
Z4 == <<0, 0, 0, 0>>
RandScale(hs(_)) ==
    LET m == Pick(hs(9), 6) IN
    [i \in 1 .. 4 |-> CASE m < 2 -> (IF Pick(hs(i), 3) = 0 THEN 0 ELSE Between(hs(i) \div 3, IF i = 4 THEN -1 ELSE -4, IF i = 4 THEN 1 ELSE 4))
                        [] m = 2 -> (IF i \in {1, 3} THEN Between(hs(1) \div 3, -12, 12) ELSE 0)        \* powers of ten
                        [] m = 3 -> (IF i = 1 + Pick(hs(10), 4) THEN Between(hs(i) \div 3, -Lims[i], Lims[i]) ELSE 0)
                        [] m = 4 -> Between(hs(i) \div 3, -Lims[i], Lims[i])
                        [] m = 5 -> (IF i = 4 THEN Between(hs(i) \div 3, -1, 1) ELSE Between(hs(i) \div 3, -8, 8))]

(* ---- numbers ---- *)
FloatVals(t, h) ==
    LET r(j) == [n |-> (Between(H(<<Seed, h, j>>), 0, 2000000) - 1000000) * 2 + 1, e |-> Between(H(<<h, j, 5>>), -60, 40)]
    IN <<[n |-> 0, e |-> 0], [n |-> 1, e |-> 0], [n |-> -3, e |-> -1], r(1), r(2), r(3), r(4)>>
       \o [i \in 1 .. 6 |-> [sp |-> <<"-0", "inf", "-inf", "nan", "max", "min">>[i]]]
BigOfQ(x) == [s |-> x.s, m |-> x.n]
IntVals(t, df, h) ==
    LET N == FNum(df)  D == FDen(df)  r == Q(1, N, D)
        nq == QBig(r.n)  dq == QBig(r.d)
        top == MaxOf(t)  bot == MinOf(t)
        near == <<Q0, Q1, QInt(2), QInt(3), QInt(7), QInt(100), QNeg(Q1), QInt(-2), QInt(-7), top, QSub(top, Q1), QSub(top, QInt(2)), bot, QAdd(bot, Q1),
                  QTrunc(QDiv(top, nq)), QAdd(QTrunc(QDiv(top, nq)), Q1), QTrunc(QDiv(bot, nq)), QSub(QTrunc(QDiv(bot, nq)), Q1),
                  QTrunc(QDiv(QMul(top, dq), nq)), QAdd(QTrunc(QDiv(QMul(top, dq), nq)), Q1), QTrunc(QDiv(QMul(bot, dq), nq)), QSub(QTrunc(QDiv(QMul(bot, dq), nq)), Q1),
                  dq, QAdd(dq, Q1), QSub(dq, Q1), QNeg(dq), nq, QAdd(nq, Q1), QMul(nq, dq), QTrunc(QDiv(top, QInt(3))), QTrunc(QDiv(top, QInt(1 + Pick(h, 900)))), QTrunc(QDiv(bot, QInt(1 + Pick(h \div 5, 900))))>>
        ok == SelectSeq(near, LAMBDA x : Fits(t, x))
    IN [i \in DOMAIN ok |-> BigOfQ(ok[i])]

AxisScale(a, x) == [i \in 1 .. 4 |-> IF i = a THEN x ELSE 0]
AxisMax(a) == IF a = 4 THEN 8 ELSE 100
Vals(t, from, to, h) == IF IsFloat(t) THEN FloatVals(t, h) ELSE IntVals(t, VSub(from, to), h)

(* A job: type, list of scales to pass through (first = last for chains), values at the first scale *)
Job(c) ==
    IF c.f = "sweep"
    THEN LET t == Ts[1 + ((c.n + c.a) % Len(Ts))] IN
         [t |-> t, sc |-> <<AxisScale(c.a, c.n), Z4, AxisScale(c.a, c.n)>>, vals |-> Vals(t, AxisScale(c.a, c.n), Z4, c.n + 500)]
    ELSE LET t == Ts[1 + ((c.n + Seed) % Len(Ts))]
             hs(i) == H(<<Seed, c.n, i, 1>>)
             ht(i) == H(<<Seed, c.n, i, 2>>)
             hu(i) == H(<<Seed, c.n, i, 3>>)
             A == RandScale(hs)  B == RandScale(ht)  C == RandScale(hu)
         IN [t |-> t, sc |-> (IF Pick(hs(20), 2) = 0 THEN <<A, B, A>> ELSE <<A, B, C, A>>), vals |-> Vals(t, A, B, c.n)]

VARIABLES zC
Init == \/ zC \in [f : {"chain"}, a : {0}, n : 1 .. NChains]
        \/ Sweep /\ \E a \in 1 .. 4 : zC \in [f : {"sweep"}, a : {a}, n : -(AxisMax(a) + Far) .. (AxisMax(a) + Far)]
Next == /\ zC.f # "done" /\ zC' = [zC EXCEPT !.f = "done", !.a = zC.a + (IF zC.f = "chain" THEN 10 ELSE 0)]
        /\ PrintT("@@" \o ToJson([c |-> zC] @@ Job(zC)))
=============================================================================
