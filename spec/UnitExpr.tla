------------------------------ MODULE UnitExpr ------------------------------
(* The language of unit expressions: its grammar over tokens, and the meaning  *)
(* of an expression in terms of the meaning of the words in it.                *)
(*                                                                             *)
(*   expr   ::= factor { "/" factor }          (to the left)                   *)
(*   factor ::= power { ("*" | ".") power }                                    *)
(*   power  ::= atom [ "^" exponent ]                                          *)
(*   atom   ::= word | 1 | 10 | "(" expr ")"                                   *)
(*                                                                             *)
(* Tokens: [k |-> "id", w |-> word, n |-> exponent written on the word (1 if   *)
(* none), x |-> text], [k |-> "int", v |-> value, x], [k |-> "op", x],         *)
(* [k |-> "junk", x].                                                          *)
EXTENDS Units

WordForm == [w \in {f.w : f \in Forms} |-> CHOOSE f \in Forms : f.w = w]
KnownWords == {f.w : f \in Forms}
Known(w) == w \in KnownWords

(* ---- grammar ---- *)
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE [k |-> "end", x |-> ""]
IsOp(ts, i, x) == Tok(ts, i).k = "op" /\ Tok(ts, i).x = x
Fail == [ok |-> FALSE, i |-> 0, e |-> 0]
Exp16(v) == v >= -32768 /\ v <= 32767
(* the exponent after "^": an integer, possibly negative *)
Exponent(ts, i) ==
    IF Tok(ts, i).k = "int" THEN [ok |-> Exp16(ts[i].v), i |-> i + 1, n |-> ts[i].v]
    ELSE IF IsOp(ts, i, "-") /\ Tok(ts, i + 1).k = "int" THEN [ok |-> Exp16(-ts[i + 1].v), i |-> i + 2, n |-> -ts[i + 1].v]
    ELSE [ok |-> FALSE, i |-> i, n |-> 0]

RECURSIVE ParseExpr(_, _), ParseFactor(_, _), ParsePower(_, _), ParseAtom(_, _), MoreDiv(_, _, _), MoreMul(_, _, _)
ParseAtom(ts, i) ==
    LET t == Tok(ts, i) IN
    CASE t.k = "id" -> [ok |-> TRUE, i |-> i + 1, e |-> [k |-> "atom", w |-> t.w, n |-> t.n]]
      [] t.k = "int" -> (IF t.v \in {1, 10} THEN [ok |-> TRUE, i |-> i + 1, e |-> [k |-> "num", v |-> t.v]] ELSE Fail)
      [] t.k = "op" /\ t.x = "(" -> (LET r == ParseExpr(ts, i + 1) IN
                                     IF r.ok /\ IsOp(ts, r.i, ")") THEN [r EXCEPT !.i = @ + 1] ELSE Fail)
      [] OTHER -> Fail
ParsePower(ts, i) ==
    LET a == ParseAtom(ts, i) IN
    IF ~a.ok \/ ~IsOp(ts, a.i, "^") THEN a
    ELSE LET n == Exponent(ts, a.i + 1) IN
         IF n.ok THEN [ok |-> TRUE, i |-> n.i, e |-> [k |-> "pow", a |-> a.e, n |-> n.n]] ELSE Fail
MoreMul(ts, i, l) ==
    IF IsOp(ts, i, "*") \/ IsOp(ts, i, ".")
    THEN LET r == ParsePower(ts, i + 1) IN
         IF r.ok THEN MoreMul(ts, r.i, [k |-> "mul", a |-> l, b |-> r.e]) ELSE Fail
    ELSE [ok |-> TRUE, i |-> i, e |-> l]
ParseFactor(ts, i) == LET l == ParsePower(ts, i) IN IF l.ok THEN MoreMul(ts, l.i, l.e) ELSE Fail
MoreDiv(ts, i, l) ==
    IF IsOp(ts, i, "/")
    THEN LET r == ParseFactor(ts, i + 1) IN
         IF r.ok THEN MoreDiv(ts, r.i, [k |-> "div", a |-> l, b |-> r.e]) ELSE Fail
    ELSE [ok |-> TRUE, i |-> i, e |-> l]
ParseExpr(ts, i) == LET l == ParseFactor(ts, i) IN IF l.ok THEN MoreDiv(ts, l.i, l.e) ELSE Fail
Parse(ts) == LET r == ParseExpr(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Fail
(* "10^4^2": the grammar above rejects it, an implementation may read (10^4)^2 *)
Unspecified(ts) == \E i \in 1 .. Len(ts) - 3 : ts[i].k = "int" /\ IsOp(ts, i + 1, "^") /\ \E j \in {i + 3, i + 4} : IsOp(ts, j, "^")

(* expressions that run-time readers may refuse for their size *)
Huge(ts) == Cardinality({i \in DOMAIN ts : ts[i].k = "op" /\ ts[i].x \in {"*", ".", "/", "^"}}) > 500 \/ Cardinality({i \in DOMAIN ts : ts[i].x = "("}) > 100

(* ---- meaning ---- *)
(* at[w] = [d, sc, cf, off]: what the word w denotes; exponents beyond +-60000 *)
(* are cut off there                                                           *)
Cut(x) == IF x > 60000 THEN 60000 ELSE IF x < -60000 THEN -60000 ELSE x
CutV(a) == [i \in DOMAIN a |-> Cut(a[i])]
FitsV(a) == \A i \in DOMAIN a : Exp16(a[i])
FitsM(m) == FitsV(m.d) /\ FitsV(m.sc)
(* fit: every intermediate exponent is a 16-bit number; cfs: the words'        *)
(* conversion factors with their exponents; aff: a point scale is involved     *)
Unit1 == [d |-> VZero(8), sc |-> VZero(4), fit |-> TRUE, cfs |-> <<>>, aff |-> FALSE]
CutCf(c) == [i \in DOMAIN c |-> [w |-> c[i].w, n |-> Cut(c[i].n)]]
MPow(m, n) == LET r == [m EXCEPT !.d = CutV(VMul(@, n)), !.sc = CutV(VMul(@, n)),
                                 !.cfs = [i \in DOMAIN m.cfs |-> [w |-> m.cfs[i].w, n |-> Cut(m.cfs[i].n * n)]]]
              IN [r EXCEPT !.fit = m.fit /\ n \in -32768 .. 32767 /\ FitsM(r)]
MMul(a, b) == LET r == [d |-> CutV(VAdd(a.d, b.d)), sc |-> CutV(VAdd(a.sc, b.sc)), fit |-> TRUE, cfs |-> a.cfs \o b.cfs, aff |-> a.aff \/ b.aff]
              IN [r EXCEPT !.fit = a.fit /\ b.fit /\ FitsM(r)]
RECURSIVE MeaningX(_, _)
MeaningX(e, at) ==
    CASE e.k = "atom" -> (LET u == at[e.w] IN MPow([d |-> u.d, sc |-> u.sc, fit |-> TRUE, cfs |-> <<[w |-> e.w, n |-> 1]>>, aff |-> u.off.s # 0], e.n))
      [] e.k = "num" -> (IF e.v = 1 THEN Unit1 ELSE [Unit1 EXCEPT !.sc = <<1, 0, 1, 0>>])
      [] e.k = "pow" -> MPow(MeaningX(e.a, at), e.n)
      [] e.k = "mul" -> MMul(MeaningX(e.a, at), MeaningX(e.b, at))
      [] e.k = "div" -> MMul(MeaningX(e.a, at), MPow(MeaningX(e.b, at), -1))
RECURSIVE Words(_)
Words(e) == CASE e.k = "atom" -> {e.w} [] e.k = "num" -> {} [] e.k = "pow" -> Words(e.a) [] OTHER -> Words(e.a) \union Words(e.b)
(* a word alone, with exponent one: its zero point counts *)
SingleWord(e) == e.k = "atom" /\ e.n = 1

(* ---- texts of expressions ---- *)
OpT(x) == [k |-> "op", x |-> x]
NumT(v) == [k |-> "int", v |-> v, x |-> ToString(v)]
IdT(w, n) == [k |-> "id", w |-> w, n |-> n, x |-> IF n = 1 THEN w ELSE w \o ToString(n)]
Junk(x) == [k |-> "junk", x |-> x]
Paren(s) == <<OpT("(")>> \o s \o <<OpT(")")>>
ExpT(n) == IF n < 0 THEN <<OpT("-"), NumT(-n)>> ELSE <<NumT(n)>>
Level(e) == CASE e.k = "div" -> 1 [] e.k = "mul" -> 2 [] e.k = "pow" -> 3 [] OTHER -> 4
RECURSIVE Text(_, _, _)
(* the tokens of e where an expression of at least level l is expected; h      *)
(* chooses among equivalent ways of writing                                    *)
Text(e, l, h) ==
    LET h1 == (h * 7 + 3) % 1009  h2 == (h * 11 + 5) % 1013
        body == CASE e.k = "atom" -> (IF e.n = 1 THEN <<IdT(e.w, 1)>> ELSE IF e.n >= 0 /\ h % 2 = 0 THEN <<IdT(e.w, e.n)>>
                                      ELSE <<IdT(e.w, 1), OpT("^")>> \o ExpT(e.n))
                  [] e.k = "num" -> <<NumT(e.v)>>
                  [] e.k = "pow" -> Text(e.a, 4, h1) \o <<OpT("^")>> \o ExpT(e.n)
                  [] e.k = "mul" -> Text(e.a, 2, h1) \o <<OpT(IF h % 3 = 0 THEN "." ELSE "*")>> \o Text(e.b, 3, h2)
                  [] e.k = "div" -> Text(e.a, 1, h1) \o <<OpT("/")>> \o Text(e.b, 2, h2)
        lv == IF e.k = "atom" /\ Len(body) > 1 THEN 3 ELSE Level(e)
    IN IF lv < l \/ h % 17 = 0 THEN Paren(body) ELSE body
=============================================================================
