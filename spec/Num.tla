-------------------------------- MODULE Num ---------------------------------
(* Exact rational numbers [s |-> sign, n |-> numerator, d |-> denominator],    *)
(* n and d BigNats, and what a machine number denotes.                         *)
EXTENDS BigNat

One == <<1>>
QNorm(x) == IF x.s = 0 \/ x.n = <<>> THEN [s |-> 0, n |-> <<>>, d |-> One]
            ELSE LET g == BGcd(x.n, x.d) IN [s |-> x.s, n |-> BDiv(x.n, g), d |-> BDiv(x.d, g)]
Q(s, n, d) == QNorm([s |-> s, n |-> n, d |-> d])
Q0 == [s |-> 0, n |-> <<>>, d |-> One]
Q1 == [s |-> 1, n |-> One, d |-> One]
QInt(i) == IF i = 0 THEN Q0
           ELSE [s |-> IF i > 0 THEN 1 ELSE -1, n |-> BFromNat(IF i > 0 THEN i ELSE -i), d |-> One]
QBig(n) == Q(1, n, One)
QNeg(x) == [x EXCEPT !.s = -@]
QAbs(x) == [x EXCEPT !.s = IF @ = 0 THEN 0 ELSE 1]
QMul(x, y) == Q(x.s * y.s, BMul(x.n, y.n), BMul(x.d, y.d))
QInv(x) == [s |-> x.s, n |-> x.d, d |-> x.n]      \* x # 0
QDiv(x, y) == QMul(x, QInv(y))
QAdd(x, y) ==
    IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
    ELSE LET a == BMul(x.n, y.d)  b == BMul(y.n, x.d)  d == BMul(x.d, y.d)
         IN IF x.s = y.s THEN Q(x.s, BAdd(a, b), d)
            ELSE IF BLe(b, a) THEN Q(x.s, BSub(a, b), d) ELSE Q(y.s, BSub(b, a), d)
QSub(x, y) == QAdd(x, QNeg(y))
QCmp(x, y) ==
    IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
    ELSE IF x.s = 0 THEN 0
    ELSE x.s * BCmp(BMul(x.n, y.d), BMul(y.n, x.d))
QEq(x, y) == QCmp(x, y) = 0
QLe(x, y) == QCmp(x, y) <= 0
QLt(x, y) == QCmp(x, y) < 0
RECURSIVE QPow(_, _)
QPow(x, k) == IF k < 0 THEN QPow(QInv(x), -k)
              ELSE IF k = 0 THEN Q1
              ELSE Q(IF k % 2 = 0 THEN x.s * x.s ELSE x.s, BPow(x.n, k), BPow(x.d, k))
(* truncation toward zero, as a signed natural *)
QTrunc(x) == LET q == BDiv(x.n, x.d) IN Q(IF q = <<>> THEN 0 ELSE x.s, q, One)
QIsInt(x) == BMod(x.n, x.d) = <<>>

(* decimal number: groups of three digits, most significant first, times 10^e *)
P10(e) == IF e >= 0 THEN QBig(BPow(<<10>>, e)) ELSE QInv(QBig(BPow(<<10>>, -e)))
P2(e) == IF e >= 0 THEN QBig(BPow(<<2>>, e)) ELSE QInv(QBig(BPow(<<2>>, -e)))
Dec(groups, e) == QMul(QBig(Big(groups)), P10(e))

(* pi to 50 decimals *)
PI == Dec(<<314, 159, 265, 358, 979, 323, 846, 264, 338, 327, 950, 288, 419, 716, 939, 937, 510>>, -50)

(* The number a scale vector <<p2, p3, p5, pPi>> denotes. *)
ScaleQ(sc) == QMul(QMul(P2(sc[1]), QPow(QInt(3), sc[2])), QMul(QPow(QInt(5), sc[3]), QPow(PI, sc[4])))

VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
VSub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
VNeg(a) == [i \in DOMAIN a |-> -a[i]]
VMul(a, k) == [i \in DOMAIN a |-> a[i] * k]
VZero(n) == [i \in 1 .. n |-> 0]

(* machine numbers in traces: [k |-> "i", s, m] integers, [k |-> "f", s, m, e] *)
(* finite floats s*m*2^e, [k |-> "nan"|"inf"|"-inf"], k = "panic" for a panic; *)
(* a field z marks the negative zero                                           *)
IsNum(v) == v.k = "i" \/ v.k = "f"
IsNZ(v) == "z" \in DOMAIN v
NumQ(v) == IF v.k = "i" THEN Q(v.s, v.m, One) ELSE QMul(Q(v.s, v.m, One), P2(v.e))

(* Products of many factors: positive numbers m * 2^e with m cut to about 230  *)
(* bits                                                                        *)
DCut(m, e) == LET j == Len(m) - 24 IN IF j > 0 THEN [m |-> BDiv(m, BPow(<<2>>, 10 * j)), e |-> e + 10 * j] ELSE [m |-> m, e |-> e]
DMul(x, y) == DCut(BMul(x.m, y.m), x.e + y.e)
DInv(x) == LET k == 10 * (Len(x.m) + 24) IN DCut(BDiv(BPow(<<2>>, k), x.m), -x.e - k)
D1 == [m |-> One, e |-> 0]
RECURSIVE DPow(_, _)
DPow(x, n) == IF n < 0 THEN DPow(DInv(x), -n) ELSE IF n = 0 THEN D1
              ELSE LET h == DPow(DMul(x, x), n \div 2) IN IF n % 2 = 1 THEN DMul(h, x) ELSE h
DBits(x) == x.e + 10 * Len(x.m)                   \* about log2
DQ(x) == QMul(QBig(x.m), P2(x.e))

(* |x - y| <= |y| / 2^k *)
Close(x, y, k) ==
    IF y.s = 0 THEN x.s = 0
    ELSE QLe(QMul(QAbs(QSub(x, y)), P2(k)), QAbs(y))
(* |x - y| <= t *)
Within(x, y, t) == QLe(QAbs(QSub(x, y)), t)
=============================================================================
