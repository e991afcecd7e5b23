------------------------------ MODULE UnitText ------------------------------
(* What a written unit expression denotes, as far as it is specified:          *)
(* st = "bad": must be refused; "ok": must be read as mn; "dims": may be       *)
(* refused, and if read only its dimensions are specified.                     *)
EXTENDS Readout

CatAt(e) == [w \in Words(e) |-> LET mn == Meaning(WordForm[w]) IN [d |-> mn.d, sc |-> VZero(4), off |-> mn.off]]
(* the largest exponent met by a word, and the number of words *)
RECURSIVE Reach(_), Leaves(_)
Abs(x) == IF x < 0 THEN -x ELSE x
Reach(e) == CASE e.k = "atom" -> Abs(e.n) [] e.k = "num" -> 1
              [] e.k = "pow" -> Cut(Reach(e.a) * (IF Abs(e.n) > 20000 THEN 20000 ELSE Abs(e.n)))
              [] OTHER -> (LET a == Reach(e.a)  b == Reach(e.b) IN IF a > b THEN a ELSE b)
Leaves(e) == CASE e.k \in {"atom", "num"} -> 1 [] e.k = "pow" -> Leaves(e.a) [] OTHER -> Leaves(e.a) + Leaves(e.b)
MayBe(st, d) == [st |-> st, d |-> d, mn |-> U1]
Reading(ts) ==
    LET p == Parse(ts) IN
    IF Len(ts) > 200 \/ Unspecified(ts) THEN (IF p.ok THEN MayBe("dims", <<>>) ELSE MayBe("bad?", <<>>))
    ELSE IF ~p.ok THEN MayBe("bad", <<>>)
    ELSE IF \E w \in Words(p.e) : ~Known(w) THEN MayBe("bad", <<>>)
    ELSE LET m == MeaningX(p.e, CatAt(p.e)) IN
         IF ~FitsV(m.d) THEN MayBe("bad", <<>>)
         ELSE IF ~m.fit \/ Reach(p.e) > 24 \/ Leaves(p.e) > 24 \/ (m.aff /\ ~SingleWord(p.e)) THEN MayBe("dims", m.d)
         ELSE [st |-> "ok", d |-> m.d, mn |-> Exact(p.e)]
=============================================================================
