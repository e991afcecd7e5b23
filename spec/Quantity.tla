------------------------------ MODULE Quantity ------------------------------
(* The register machine of typed quantities.  A quantity is                    *)
(*   [d |-> 8 dimension exponents, s |-> 4 scale exponents (2,3,5,pi),         *)
(*    t |-> storage type, b |-> brand, v |-> machine number].                  *)
(* Every public operation is an action: its guard says which operands it       *)
(* accepts (a program using it compiles), its effect which type results and    *)
(* which number is stored.                                                     *)
EXTENDS Num, TLC

(* ---- storage types ---- *)
Types == <<"f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
IsFloat(t) == t \in {"f64", "f32"}
IsSigned(t) == t \notin {"u8", "u16", "u32", "u64", "u128", "usize"}
Bits(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32
             [] t \in {"i64", "u64", "isize", "usize"} -> 64 [] t \in {"i128", "u128"} -> 128
MinOf(t) == IF IsSigned(t) THEN QNeg(P2(Bits(t) - 1)) ELSE Q0
MaxOf(t) == QSub(P2(IF IsSigned(t) THEN Bits(t) - 1 ELSE Bits(t)), Q1)
Fits(t, x) == QLe(MinOf(t), x) /\ QLe(x, MaxOf(t))      \* an integer x
Prec(t) == IF t = "f32" THEN 24 ELSE 53                 \* |rounded - x| <= |x| / 2^Prec
(* magnitudes between which the machine number is a normal float               *)
FTop(t) == IF t = "f32" THEN P2(127) ELSE P2(1023)
FTiny(t) == IF t = "f32" THEN P2(-126) ELSE P2(-1022)
FStep(t) == IF t = "f32" THEN P2(-149) ELSE P2(-1074)

Panic == [k |-> "panic"]

(* v is what a machine computing x (a rational) in type t may answer, when     *)
(* exactness of k bits is required (Prec(t) for a single operation)            *)
Answers(v, t, x, k) ==
    IF IsFloat(t)
    THEN IF QLe(QMul(FTop(t), QInt(2)), QAbs(x)) THEN v.k = (IF x.s > 0 THEN "inf" ELSE "-inf")
         ELSE IF QLe(FTop(t), QAbs(x)) THEN v.k \in {"inf", "-inf"} \/ (IsNum(v) /\ Close(NumQ(v), x, k))
         ELSE /\ v.k = "f"
              /\ \/ Close(NumQ(v), x, k)
                 \/ QLe(QAbs(x), FTiny(t)) /\ Within(NumQ(v), x, FStep(t))
    ELSE IF Fits(t, x) THEN v.k = "i" /\ QEq(NumQ(v), x) ELSE v.k = "panic"

(* the remainder of truncated division *)
QRem(a, b) == QSub(a, QMul(b, QTrunc(QDiv(a, b))))

(* v is the answer of machine operation op on the stored numbers a and b       *)
Op(op, t, a, b) ==
    CASE op = "+" -> QAdd(a, b) [] op = "-" -> QSub(a, b) [] op = "*" -> QMul(a, b)
      [] op = "/" -> (IF IsFloat(t) THEN QDiv(a, b) ELSE QTrunc(QDiv(a, b)))
      [] op = "%" -> QRem(a, b)
(* floating point beyond the numbers: infinities, zeros with a sign, NaN       *)
SignOf(v) == IF v.k = "inf" THEN 1 ELSE IF v.k = "-inf" THEN -1
             ELSE IF v.s # 0 THEN v.s ELSE IF IsNZ(v) THEN -1 ELSE 1
IsInf(v) == v.k \in {"inf", "-inf"}
IsZero(v) == v.k = "f" /\ v.s = 0
InfOf(s) == IF s > 0 THEN "inf" ELSE "-inf"
NegOf(v) == IF v.k = "nan" THEN v ELSE IF IsInf(v) THEN [k |-> InfOf(-SignOf(v))]
            ELSE IF IsZero(v) THEN (IF IsNZ(v) THEN [k |-> "f", s |-> 0, m |-> v.m, e |-> v.e] ELSE [k |-> "f", s |-> 0, m |-> v.m, e |-> v.e, z |-> 1])
            ELSE [v EXCEPT !.s = -@]
(* the answer when an operand is not a number, or the divisor is zero          *)
SpecialOK(v, op, a, b) ==
    LET s == SignOf(a) * SignOf(b) IN
    IF a.k = "nan" \/ b.k = "nan" THEN v.k = "nan"
    ELSE CASE op = "+" -> (IF IsInf(a) /\ IsInf(b) /\ a.k # b.k THEN v.k = "nan" ELSE v.k = (IF IsInf(a) THEN a.k ELSE b.k))
           [] op = "*" -> (IF IsZero(a) \/ IsZero(b) THEN v.k = "nan" ELSE v.k = InfOf(s))
           [] op = "/" -> (IF (IsInf(a) /\ IsInf(b)) \/ (IsZero(a) /\ IsZero(b)) THEN v.k = "nan"
                           ELSE IF IsInf(b) THEN IsZero(v) /\ SignOf(v) = s ELSE v.k = InfOf(s))
           [] op = "%" -> (IF IsInf(a) \/ IsZero(b) THEN v.k = "nan" ELSE v = a)
(* the sign of a zero answer                                                   *)
ZeroSign(op, a, b) ==
    CASE op \in {"*", "/"} -> SignOf(a) * SignOf(b)
      [] op = "%" -> SignOf(a)
      [] op = "+" -> (IF IsZero(a) /\ IsZero(b) /\ SignOf(a) = -1 /\ SignOf(b) = -1 THEN -1
                      ELSE LET x == QAdd(NumQ(a), NumQ(b)) IN IF x.s = 0 THEN 1 ELSE x.s)
FloatOpOK(v, op, t, a, b) ==
    IF ~IsNum(a) \/ ~IsNum(b) \/ (op \in {"/", "%"} /\ IsZero(b)) THEN SpecialOK(v, op, a, b)
    ELSE /\ Answers(v, t, Op(op, t, NumQ(a), NumQ(b)), Prec(t))
         /\ IsZero(v) => SignOf(v) = ZeroSign(op, a, b)
NumberOK(v, op, t, av, bv) ==
    IF IsFloat(t) THEN (IF op = "-" THEN FloatOpOK(v, "+", t, av, NegOf(bv)) ELSE FloatOpOK(v, op, t, av, bv))
    ELSE LET a == NumQ(av)  b == NumQ(bv) IN
         IF op \in {"/", "%"} /\ b.s = 0 THEN v.k = "panic"
         ELSE IF op = "%" /\ b.s < 0 /\ ~Fits(t, Op("/", t, a, b)) THEN v.k = "panic"
         ELSE Answers(v, t, Op(op, t, a, b), Prec(t))

(* ---- guards: which operands an operation accepts ---- *)
SameType(p, q) == p.d = q.d /\ p.s = q.s /\ p.t = q.t /\ p.b = q.b
Accepts(op, p, q) ==
    CASE op \in {"+", "-", "%", "+=", "-=", "%=", "<", "<=", ">", ">=", "==", "cmp", "assign"} -> SameType(p, q)
      [] op \in {"*", "/"} -> p.t = q.t /\ p.b = q.b
      [] op = "rescale" -> p.d = q.d /\ p.t = q.t /\ p.b = q.b

(* ---- effects on the type ---- *)
MulType(p, q) == [p EXCEPT !.d = VAdd(p.d, q.d), !.s = VAdd(p.s, q.s)]
DivType(p, q) == [p EXCEPT !.d = VSub(p.d, q.d), !.s = VSub(p.s, q.s)]
InvType(p) == [p EXCEPT !.d = VNeg(p.d), !.s = VNeg(p.s)]

(* the operator behind an in-place form *)
Base(op) == CASE op = "+=" -> "+" [] op = "-=" -> "-" [] op = "%=" -> "%" [] op = "*=" -> "*" [] op = "/=" -> "/" [] OTHER -> op

(* The type of the register after event e, and whether e's number is right.    *)
(* e: [op, k, q | x, o]: k = "q" quantity operand q, "s" scalar operand x on   *)
(* the right, "l" scalar operand on the left, "u" unary; o the observed result *)
ResultType(r, e) ==
    CASE e.op = "neg" -> r
      [] e.k = "q" /\ e.op = "*" -> MulType(r, e.q)
      [] e.k = "q" /\ e.op = "/" -> DivType(r, e.q)
      [] e.k = "l" /\ e.op = "/" -> InvType(r)
      [] OTHER -> r
ResultOK(r, e) ==
    CASE e.op = "neg" -> (IF IsFloat(r.t) THEN e.o.v = NegOf(r.v) ELSE Answers(e.o.v, r.t, QNeg(NumQ(r.v)), Prec(r.t)))
      [] e.k = "q" -> NumberOK(e.o.v, Base(e.op), r.t, r.v, e.q.v)
      [] e.k = "s" -> NumberOK(e.o.v, Base(e.op), r.t, r.v, e.x)
      [] e.k = "l" -> NumberOK(e.o.v, Base(e.op), r.t, e.x, r.v)

(* Result of judging event e in register state r: "" or what is wrong          *)
Judge(r, e) ==
    LET x == ResultType(r, e) IN
    IF ~(e.k # "q" \/ Accepts(e.op, r, e.q)) THEN "the specification does not allow this operation"
    ELSE IF e.o.v.k = "panic" THEN (IF ResultOK(r, e) THEN "" ELSE "panicked")
    ELSE IF e.o.d # x.d THEN "dimension exponents"
    ELSE IF e.o.s # x.s THEN "scale exponents"
    ELSE IF e.o.t # x.t THEN "storage type"
    ELSE IF e.o.b # x.b THEN "brand"
    ELSE IF ~ResultOK(r, e) THEN "number"
    ELSE ""
=============================================================================
