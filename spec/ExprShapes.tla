------------------------------ MODULE ExprShapes ----------------------------
(* Random unit expressions, random damage to them, and special shapes.         *)
EXTENDS UnitExpr, Rand

(* a written word *)
Word(h) ==
    LET i == ListedSeq[1 + Pick(h, Len(ListedSeq))]  u == Catalogue[i]
        common == <<"m", "s", "kg", "km", "mm", "N", "J", "W", "K", "A", "mol", "rad", "h", "min", "ft", "g">>
        plain == IF Pick(h \div 7, 3) = 0 THEN u.name ELSE Choose(u.syms, h \div 11)
        p == Prefixes[1 + Pick(h \div 13, Len(Prefixes))]
        pre == IF Pick(h \div 17, 4) = 0 THEN p.name \o u.name ELSE Choose(p.syms, h \div 19) \o Choose(u.syms, h \div 11)
    IN IF Pick(h \div 5, 4) = 0 THEN Choose(common, h) ELSE IF u.base /\ Pick(h \div 23, 2) = 0 /\ pre \notin Whole THEN pre ELSE plain
SmallExp(h) == Choose(<<1, 2, 3, -1, -2, 2, -3, 4, 0, 5, -4, 7, -9, 9>>, h)
RECURSIVE Ast(_, _)
Ast(h, k) ==
    LET a(j) == Ast(H(<<h, j, k>>), k - 1)  m == Pick(h, 10) IN
    IF k = 0 \/ m < 2
    THEN IF Pick(h \div 31, 9) = 0 THEN [k |-> "num", v |-> Choose(<<1, 10>>, h)]
         ELSE [k |-> "atom", w |-> Word(H(<<h, 77, k>>)), n |-> Choose(<<1, 1, 1, 2, 3, -1, -2, 4, 0, 12>>, h \div 37)]
    ELSE IF m < 5 THEN [k |-> "mul", a |-> a(1), b |-> a(2)]
    ELSE IF m < 8 THEN [k |-> "div", a |-> a(1), b |-> a(2)]
    ELSE [k |-> "pow", a |-> a(1), n |-> SmallExp(h \div 41)]

Strange(h) == Choose(<<OpT("*"), OpT("/"), OpT("."), OpT("^"), OpT("("), OpT(")"), OpT("-"), OpT("+"), OpT(","), NumT(0), NumT(1), NumT(2), NumT(10), NumT(100), NumT(3), NumT(32767), NumT(32768), NumT(65537),
    IdT("xyz", 1), IdT("kkm", 1), IdT("mkg", 1), IdT("foo", 2), IdT("dimensionless", 1), IdT("power_of_10", 1), IdT("M", 1), IdT("kilom", 1), IdT("kmeter", 1), IdT("kft", 1), IdT("meters", 1), IdT("Meter", 1), IdT("_", 1), IdT("x", 1),
    Junk("1.5"), Junk("2.0"), Junk("99999999999"), Junk("1u8"), Junk("2m"), Junk("%"), Junk("#"), Junk("\\"), Junk("'m'"), Junk("=="), Junk("m!"), Junk(";"), Junk("&"), Junk("[m]"), Junk("{m}"), Junk("::"), Junk("m99999"), Junk("m2x"), Junk("//"), Junk("/*"), Junk("**"), Junk("^^"), Junk("@"), Junk("$m"), Junk("1e3"), Junk("?")>>, h)
Cutout(s, a, b) == SubSeq(s, 1, a - 1) \o SubSeq(s, b, Len(s))
Damage(s, h) ==
    LET i == 1 + Pick(h, Len(s))  m == Pick(h \div 7, 6)  g == Strange(H(<<h, 3, 1>>)) IN
    CASE m = 0 -> Cutout(s, i, i + 1)
      [] m = 1 -> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
      [] m = 2 -> [s EXCEPT ![i] = g]
      [] m = 3 -> SubSeq(s, 1, i) \o <<g>> \o SubSeq(s, i + 1, Len(s))
      [] m = 4 -> (IF i < Len(s) THEN [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] ELSE s)
      [] m = 5 -> <<g>> \o s

BigExp(h) == Choose(<<100, 127, 128, 200, 255, 256, 400, 1000, 4000, 8000, 10922, 10923, 16383, 16384, 32766, 32767, 32768, 40000, 65535, 65536, -128, -129, -1000, -10922, -10923, -16384, -32767, -32768, -32769, -40000>>, h)
Rep(s, n) == [i \in 1 .. n * Len(s) |-> s[1 + ((i - 1) % Len(s))]]
A1(w) == <<IdT(w, 1)>>
(* special shapes *)
Shape(n, h) ==
    LET w == Word(h)  v == Word(h \div 3 + 1)  b == BigExp(h \div 5)  c == BigExp(h \div 7) IN
    CASE n = 1 -> A1(w) \o <<OpT("^")>> \o ExpT(b)
      [] n = 2 -> Paren(A1(w) \o <<OpT("^")>> \o ExpT(b)) \o <<OpT("^")>> \o ExpT(c)
      [] n = 3 -> A1("m") \o <<OpT("^")>> \o ExpT(b) \o <<OpT("*")>> \o A1("m") \o <<OpT("^")>> \o ExpT(c)
      [] n = 4 -> A1("m") \o <<OpT("^")>> \o ExpT(b) \o <<OpT("/")>> \o A1("m") \o <<OpT("^")>> \o ExpT(c)
      [] n = 5 -> <<NumT(10), OpT("^")>> \o ExpT(b) \o <<OpT("*")>> \o A1(w)
      [] n = 6 -> Rep(<<OpT("(")>>, 10 * (1 + Pick(h, 20))) \o A1(w) \o Rep(<<OpT(")")>>, 10 * (1 + Pick(h, 20)))
      [] n = 7 -> A1(w) \o Rep(<<OpT("*"), IdT(v, 1)>>, 20 + Pick(h, 300))
      [] n = 8 -> A1(w) \o Rep(<<OpT("/"), IdT(v, 1)>>, 20 + Pick(h, 300))
      [] n = 9 -> Paren(A1(w) \o <<OpT("/")>> \o A1(v)) \o <<OpT("^")>> \o ExpT(SmallExp(h \div 9))
      [] n = 10 -> A1(w) \o <<OpT("/")>> \o A1(v) \o <<OpT("*")>> \o A1(Word(h \div 9))
      [] n = 11 -> <<NumT(1), OpT("/")>> \o A1(w)
      [] n = 12 -> <<IdT(w, IF b >= 0 THEN b ELSE -b)>>
      [] n = 13 -> <<>>
      [] n = 14 -> A1(w)
      [] n = 15 -> A1(w) \o A1(v)
      [] n = 16 -> A1(w) \o <<OpT("/"), OpT("/")>> \o A1(v)
      [] n = 17 -> <<IdT(Word(h), 2), OpT("^")>> \o ExpT(SmallExp(h \div 9))
      [] n = 18 -> A1(w) \o <<OpT("/"), OpT("*"), OpT("*"), OpT("/")>> \o A1(v)
      [] n = 19 -> A1(w) \o <<OpT("/"), OpT("/")>>
      [] n = 20 -> <<IdT("m", b \div 2 + 40000)>>
=============================================================================
