------------------------------ MODULE SerialGen -----------------------------
(* Targets and inputs for deserialisation.                                     *)
EXTENDS Serial, UnitPairs, ExprShapes, Json
CONSTANTS Seed, NTargets, PerTarget

P(x) == [k |-> "p", x |-> x]
Str(c, u) == [k |-> "str", c |-> c, u |-> u, x |-> c]
Name(c) == Str(c, IF c = "" THEN <<>> ELSE <<IdT(c, 1)>>)
NumT1(x) == [k |-> "num", x |-> x]
Lit(x) == [k |-> "lit", x |-> x]
JJunk(x) == [k |-> "junk", x |-> x]
JNums == <<"5", "5.0", "-2.5e-3", "1E5", "0", "-0.0", "123456789012345678", "1e200", "1e-200", "0.1", "3", "-273.15", "98.6", "1.7976931348623157e308", "4.9e-324", "1e0", "-7", "6.02e+23">>
Bads == <<JJunk("+5"), JJunk(".5"), JJunk("5."), JJunk("05"), JJunk("NaN"), JJunk("0x10"), JJunk("'m'"), JJunk("1_000"), JJunk("-"), JJunk("nul"), JJunk("\"open"), JJunk("1e"), JJunk(";"), JJunk("//"), JJunk("True")>>
Kinds(h) == Choose(<<NumT1("5.0"), Name("m"), Lit("null"), Lit("true"), Lit("false"), Name("5.0"), Name(""), Name("1e3"), Name("-2"), Name("inf"), Name("NaN"), Name(" 7"), Name("0"), Name("7 ")>>, h)
Wrapped(x, h) == Choose(<< <<P("["), x, P("]")>>, <<P("{"), Name("value"), P(":"), x, P("}")>>, <<P("["), P("]")>>, <<P("{"), P("}")>> >>, h)
Field(n, v) == <<Name(n), P(":"), v>>
Extra(h) == Choose(<<Field("x", NumT1("1")), Field("units", Name("m")), Field("Value", NumT1("2")), Field("UNIT", Name("m")), Field("", Lit("null")),
                     <<Name("a"), P(":"), P("{"), Name("value"), P(":"), NumT1("3"), P(","), Name("unit"), P(":"), Name("s"), P("}")>>,
                     <<Name("b"), P(":"), P("["), NumT1("1"), P(","), Lit("null"), P("]")>>, <<Name("c"), P(":"), P("{"), P("}")>>, <<Name("d"), P(":"), P("["), P("]")>>>>, h)
Comma(a, b) == a \o <<P(",")>> \o b
Obj(s) == <<P("{")>> \o s \o <<P("}")>>
Doc(h, num, u) ==
    LET v == Field("value", num)  w == Field("unit", u)  m == Pick(h, 27)  k == H(<<h, 77>>)  e == Extra(h \div 5)  g == Extra(h \div 7) IN
    CASE m < 6 -> Obj(Comma(v, w)) [] m \in {6, 7} -> Obj(Comma(w, v))
      [] m = 8 -> Obj(Comma(e, Comma(v, w))) [] m = 9 -> Obj(Comma(v, Comma(e, w))) [] m = 10 -> Obj(Comma(Comma(w, g), Comma(v, e)))
      [] m = 11 -> Obj(Comma(v, Comma(w, v))) [] m = 12 -> Obj(Comma(v, Comma(w, w))) [] m = 13 -> Obj(Comma(v, Comma(v, w)))
      [] m = 14 -> Obj(v) [] m = 15 -> Obj(w) [] m = 16 -> <<P("["), num, P(","), u, P("]")>>
      [] m = 17 -> Obj(Comma(Field("value", Kinds(k)), w)) [] m = 18 -> Obj(Comma(v, Field("unit", Kinds(k))))
      [] m \in {22, 23} -> Obj(Comma(Field("value", Kinds(k)), w)) [] m = 24 -> Obj(Comma(w, Field("value", Kinds(k))))
      [] m = 25 -> Obj(Comma(<<Name("value"), P(":")>> \o Wrapped(num, k), w)) [] m = 26 -> Obj(Comma(v, <<Name("unit"), P(":")>> \o Wrapped(u, k)))
      [] m = 19 -> <<P("[")>> \o Obj(Comma(v, w)) \o <<P("]")>> [] m = 20 -> Obj(Field("q", num) \o <<P(",")>> \o Comma(v, w)) [] m = 21 -> Choose(<<<<>>, <<P("{"), P("}")>>, <<num>>, <<u>>, <<Lit("null")>>>>, h \div 3)
JStrange(h) == Choose(Bads \o <<P("{"), P("}"), P("["), P("]"), P(","), P(":"), NumT1("7"), Name("value"), Name("unit"), Lit("null"), Name("m")>>, h)
JDamage(s, h) ==
    IF s = <<>> THEN s ELSE
    LET i == 1 + Pick(h, Len(s))  m == Pick(h \div 7, 5)  g == JStrange(H(<<h, 3, 1>>)) IN
    CASE m = 0 -> Cutout(s, i, i + 1) [] m = 1 -> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)) [] m = 2 -> [s EXCEPT ![i] = g]
      [] m = 3 -> SubSeq(s, 1, i) \o <<g>> \o SubSeq(s, i + 1, Len(s))
      [] m = 4 -> (IF i < Len(s) THEN [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] ELSE s)

TNums == <<"5", "5.0", "-2.5e-3", "1E5", "0", "-0.0", "+5", ".5", "5.", "007", "123456789012345678", "0.1", "-273.15", "98.6", "1e200", "-1e-200", "6.02e+23", "+.5e1">>
TBad == <<"", "five", "0x10", "1_000", "5,0", "--5", "1e", "1.2.3", "e5", "+", ".", "1e+", "5..0">>
Seps == <<"", " ", "", " ", "  ", "{tab}", "{nl} ", " {nbsp}">>
Edge == <<"", "", " ", "{tab}", "{nl}", "  ">>

(* targets *)
Target(n) ==
    LET h == H(<<Seed, n, 1>>) IN
    IF n % 2 = 0
    THEN \* a stored unit expression
         LET bases == SelectSeq(ListedSeq, LAMBDA i : Catalogue[i].base)
             a == Atom(Spell(Choose(bases, h \div 3), h \div 5), 1)  b == Atom(Spell(Choose(<<11, 22, 1, 29, 30>>, h \div 7), h \div 11), Choose(<<1, 2, -1>>, h \div 13))
             e == IF n % 4 = 0 THEN a ELSE IF Pick(h, 2) = 0 THEN [k |-> "mul", a |-> a, b |-> b] ELSE [k |-> "div", a |-> a, b |-> b]
         IN [k |-> "u", e |-> e, ts |-> Text(e, 1, h), d |-> Exact(e).d]
    ELSE LET i == Choose(ListedSeq, h \div 3)  c == Comp(h, 1, 0)
             d == IF n % 3 = 0 THEN Exact(c).d ELSE IF n % 13 = 0 THEN VZero(8) ELSE Catalogue[i].d
             s == [j \in 1 .. 4 |-> IF Pick(H(<<h, j>>), 2) = 0 THEN 0 ELSE Between(H(<<h, j, 2>>), IF j = 4 THEN -1 ELSE -9, IF j = 4 THEN 1 ELSE 9)]
         IN [k |-> "q", d |-> d, s |-> s, b |-> IF Pick(h, 3) = 0 THEN "B1" ELSE "()"]
(* an expression of dimension d *)
Same(d, h) ==
    LET is == SelectSeq(ListedSeq, LAMBDA i : Catalogue[i].d = d) IN
    IF is # <<>> /\ Pick(h, 3) < 2 THEN Atom(Spell(Choose(is, h \div 5), h \div 7), 1)
    ELSE Prod(d, 8, h)
(* a dimension that differs from d in one part, or is its inverse *)
Near(d, h) ==
    LET i == 1 + Pick(h, 8)  by == Choose(<<1, -1, 1, -1, 2, -2>>, h \div 11) IN
    IF Pick(h \div 83, 8) = 0 THEN [j \in 1 .. 8 |-> -d[j]]
    ELSE IF Pick(h \div 83, 8) = 1 THEN [j \in 1 .. 8 |-> IF j = i THEN -d[j] ELSE d[j]]
    ELSE [j \in 1 .. 8 |-> IF j = i THEN (IF d[j] # 0 /\ Pick(h \div 7, 3) = 0 THEN 0 ELSE d[j] + by) ELSE d[j]]
UnitFor(t, h) ==
    LET m == Pick(h, 12)  e == Same(t.d, H(<<h, 2>>))  s == Text(e, 1, h \div 3) IN
    CASE m < 5 -> s
      [] m = 5 -> Damage(s, H(<<h, 55>>))
      [] m = 6 -> Text(Ast(h, Pick(h \div 3, 3)), 1, h)
      [] m = 7 -> Text(Atom(Spell(Choose(ListedSeq, h), h \div 5), 1), 1, h)
      [] m = 8 -> Paren(s) \o <<OpT("*")>> \o (LET a == Text(Atom(Spell(Choose(SelectSeq(ListedSeq, Plain), h), h \div 5), 1), 3, h) IN a \o <<OpT("/")>> \o a)
      [] m > 9 -> Text(Same(Near(t.d, H(<<h, 31>>)), H(<<h, 32>>)), 1, h)
      [] m = 9 -> Shape(1 + Pick(h \div 9, 20), h)
Input(t, n, k) ==
    LET h == H(<<Seed, n, k, 7>>)
        \* a third of the inputs has nothing wrong but the shape of the document or the number
        fits == k % 3 = 0
        u == IF fits THEN Text(Same(t.d, H(<<h, 1>>)), 1, h) ELSE UnitFor(t, H(<<h, 1>>))
        doc == Doc(H(<<h, 2>>), NumT1(Choose(JNums, H(<<h, 3>>))), Str("$", u))
        bad == Pick(H(<<h, 4>>), IF fits THEN 3 ELSE 6) = 0
        h5 == H(<<h, 5>>)
        sep == Choose(Seps, h5 \div 11)
    IN [u |-> u, doc |-> IF ~fits /\ Pick(H(<<h, 6>>), 4) = 0 THEN JDamage(doc, H(<<h, 8>>)) ELSE doc,
        num |-> Choose(IF bad THEN TBad ELSE TNums, h5), nok |-> ~bad,
        sep |-> IF sep = "" /\ (u = <<>> \/ ~(u[1].k = "id" \/ u[1].x = "(")) THEN " " ELSE sep,
        lead |-> Choose(Edge, h5 \div 17), trail |-> Choose(Edge, h5 \div 23)]
VARIABLES zC
Init == zC \in (1 .. NTargets) \X {0}
Next == /\ zC[2] = 0 /\ zC' = <<zC[1], 1>>
        /\ LET t == Target(zC[1]) IN PrintT("@@" \o ToJson([n |-> zC[1], t |-> t, ins |-> [k \in 1 .. PerTarget |-> Input(t, zC[1], k)]]))
=============================================================================
