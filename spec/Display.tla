------------------------------ MODULE Display -------------------------------
(* Displayed units, read as ordinary unit notation.                            *)
(*                                                                             *)
(*   name ::= [factor] body | prefix "(" product ")"                           *)
(*   factor ::= "10" [superscript] | "(" decimal ")"                           *)
(*   body ::= product | "(" product ")"          (an empty product is 1)       *)
(*   product ::= [ power { "{dot}" power } ]     power ::= word [superscript]  *)
(*                                                                             *)
(* Tokens: [k |-> "w", w |-> word], [k |-> "sup", n |-> integer],              *)
(* [k |-> "dec", x |-> decimal [s, m, e]], [k |-> "op", x |-> text].           *)
(* A reading is [ok, d, m, p, near]: m * pi^p SI units of dimension d; near:   *)
(* the number m was printed with a few digits only.                            *)
EXTENDS UnitText

DTok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE [k |-> "end"]
DIs(ts, i, x) == DTok(ts, i).k = "op" /\ ts[i].x = x
DFail == [ok |-> FALSE, i |-> 0]
DOne == [d |-> VZero(8), m |-> Q1, p |-> 0]
DecVal(x) == QMul(Q(x.s, x.m, One), P10(x.e))
PrefixWords == UNION {Range(Prefixes[i].syms) \union {Prefixes[i].name} : i \in 1 .. Len(Prefixes)}
PrefixE == [w \in PrefixWords |-> Prefixes[CHOOSE i \in 1 .. Len(Prefixes) : w \in Range(Prefixes[i].syms) \union {Prefixes[i].name}].e]

DPower(ts, i) ==
    IF DTok(ts, i).k # "w" THEN DFail
    ELSE IF ~Known(ts[i].w) THEN DFail
    ELSE LET mn == Meaning(WordForm[ts[i].w])
             n == IF DTok(ts, i + 1).k = "sup" THEN ts[i + 1].n ELSE 1
         IN [ok |-> TRUE, i |-> IF DTok(ts, i + 1).k = "sup" THEN i + 2 ELSE i + 1,
             r |-> [d |-> VMul(mn.d, n), m |-> QPow(mn.m, n), p |-> mn.p * n]]
RECURSIVE DMore(_, _, _)
DMore(ts, i, l) ==
    IF ~DIs(ts, i, "{dot}") THEN [ok |-> TRUE, i |-> i, r |-> l]
    ELSE LET q == DPower(ts, i + 1) IN
         IF q.ok THEN DMore(ts, q.i, [d |-> VAdd(l.d, q.r.d), m |-> QMul(l.m, q.r.m), p |-> l.p + q.r.p]) ELSE DFail
DProduct(ts, i) == IF DTok(ts, i).k # "w" THEN [ok |-> TRUE, i |-> i, r |-> DOne]
                   ELSE LET q == DPower(ts, i) IN IF q.ok THEN DMore(ts, q.i, q.r) ELSE DFail
DClosed(ts, i) == IF ~DIs(ts, i, "(") THEN DFail
                  ELSE LET q == DProduct(ts, i + 1) IN IF q.ok /\ DIs(ts, q.i, ")") THEN [q EXCEPT !.i = @ + 1] ELSE DFail
DBody(ts, i) == IF DIs(ts, i, "(") THEN DClosed(ts, i) ELSE DProduct(ts, i)
DTimes(q, f, near) == IF q.ok THEN [ok |-> TRUE, i |-> q.i, d |-> q.r.d, m |-> QMul(q.r.m, f), p |-> q.r.p, near |-> near] ELSE DFail
DName(ts) ==
    LET q == CASE DTok(ts, 1).k = "dec" ->
                   (IF ts[1].x # [s |-> 1, m |-> <<10>>, e |-> 0] THEN DFail
                    ELSE IF DTok(ts, 2).k = "sup" THEN DTimes(DBody(ts, 3), P10(ts[2].n), FALSE) ELSE DTimes(DBody(ts, 2), P10(1), FALSE))
               [] DIs(ts, 1, "(") /\ DTok(ts, 2).k = "dec" /\ DIs(ts, 3, ")") -> DTimes(DBody(ts, 4), DecVal(ts[2].x), TRUE)
               [] DTok(ts, 1).k = "w" /\ DIs(ts, 2, "(") -> (IF ts[1].w \in PrefixWords THEN DTimes(DClosed(ts, 2), P10(PrefixE[ts[1].w]), FALSE) ELSE DFail)
               [] OTHER -> DTimes(DBody(ts, 1), Q1, FALSE)
    IN IF q.ok /\ q.i = Len(ts) + 1 THEN q ELSE [ok |-> FALSE]

(* a number printed with n significant digits *)
Digits(x, y, n) == QLe(QAbs(QSub(x, y)), QMul(QAbs(y), QMul(Frac(I(501), 100), P10(-n))))
(* does the name denote the scale s of dimension d? *)
NameOK(ts, d, s) ==
    LET q == DName(ts) IN
    IF ~q.ok THEN "the displayed unit cannot be read"
    ELSE IF q.d # d THEN "the displayed unit has another dimension"
    ELSE IF q.near THEN (IF ~InRange("f64", ScaleQ(s)) \/ Digits(QMul(q.m, QPow(PI, q.p)), ScaleQ(s), 3) THEN "" ELSE "the displayed unit has another scale")
    ELSE IF q.p = s[4] /\ QEq(q.m, ScaleQ(<<s[1], s[2], s[3], 0>>)) THEN "" ELSE "the displayed unit has another scale"
=============================================================================
