----------------------------- MODULE RoundTrip ------------------------------
(* Serialising a quantity and reading it back.                                 *)
EXTENDS Serial
(* the written unit, as ordinary unit notation *)
WrittenUnit(u) == LET p == Parse(u) IN
             IF ~p.ok THEN [ok |-> FALSE] ELSE IF \E w \in Words(p.e) : ~Known(w) THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, mn |-> Exact(p.e)]
RTErr(x) == QMul(QAbs(x), P2(-42))
(* d, s, v: the quantity; doc: what is written *)
WriteOK(d, s, v, doc) ==
    LET q == Document(doc)  si == QMul(v, ScaleQ(s)) IN
    IF ~InRange("f64", si) \/ ~InRange("f64", ScaleQ(s)) THEN ""      \* beyond f64: unspecified
    ELSE IF ~q.ok THEN "what is written is not a quantity"
    ELSE LET m == WrittenUnit(doc[q.unit].u) IN
         IF ~m.ok THEN "the written unit is no unit"
         ELSE IF m.mn.d # d THEN "the written unit has another dimension"
         ELSE IF Within(QMul(QAdd(NumQ(doc[q.num].v), m.mn.off), MagQ(m.mn)), si, RTErr(si)) THEN "" ELSE "number and unit written denote another quantity"
(* reading back at d2, s2 with result r *)
BackOK(d, s, v, d2, s2, r) ==
    LET si == QMul(v, ScaleQ(s))  y == QMul(v, ScaleQ(VSub(s, s2))) IN
    IF ~InRange("f64", si) \/ ~InRange("f64", ScaleQ(s)) \/ ~InRange("f64", ScaleQ(s2)) \/ ~InRange("f64", y) THEN ""
    ELSE IF d2 # d THEN (IF r.ok THEN "read back at another dimension" ELSE "")
    ELSE IF ~r.ok THEN "cannot be read back"
    ELSE IF IsNum(r.v) /\ Within(NumQ(r.v), y, RTErr(y)) THEN "" ELSE "reading back gives another number"
=============================================================================
