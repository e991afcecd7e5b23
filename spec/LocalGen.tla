------------------------------ MODULE LocalGen ------------------------------
(* Generates modules of local declarators and declarations in them.            *)
EXTENDS Local, ExprShapes, Json
CONSTANTS Seed, Configs, PerConfig

Cfg(c) == LET h == H(<<Seed, c, 71>>) IN
    [c |-> c, mode |-> IF c % 4 = 0 THEN "brand" ELSE "local", brand |-> c % 2 = 0 /\ c % 8 # 4, prefs |-> Prefs(h)]
Syn(cf, h) == IF cf.mode = "brand" THEN Choose(<<"q", "qT", "qT", "m", "lf", "lT">>, h) ELSE Choose(<<"q", "qT", "q", "qT", "qT", "m", "m", "lf", "li", "lT">>, h)
LFloats == <<"1.0", "2.5", "0.0", "1024.0", "0.1", "123456.789", "3.0", "0.001", "7.0">>
LSigned == <<"-1.0", "-40.0", "-0.75", "2.5", "1.0", "300.0", "1000000000.0">>
LInts == <<"1", "7", "100", "3", "12", "2", "64">>
LNegs == <<"-3", "5", "-100", "1", "90", "-1">>
NotSuffix == {"in", "as", "self", "fn", "if", "do", "mod", "pub", "ref", "use", "let", "mut", "for"}
Exponential(w) == w \in {"eV", "erg", "electron_volt"} \/ (WordForm[w].pre > 0 /\ (w = "E" \o Choose(Catalogue[WordForm[w].i].syms, 0) \/ w = "exa" \o Catalogue[WordForm[w].i].name))
(* a word that may follow a number as its suffix *)
RECURSIVE Suffix(_, _)
Suffix(h, k) == LET w == Word(h) IN IF k = 0 THEN "m" ELSE IF w \in NotSuffix \/ Exponential(w) THEN Suffix(H(<<h, k>>), k - 1) ELSE w
(* a unit of which everyday exponents stay within 16 bits and the floats *)
RECURSIVE Tame(_, _), Mild(_)
Mild(e) == CASE e.k = "atom" -> e.n \in -4 .. 4 [] e.k = "num" -> TRUE [] e.k = "pow" -> e.n \in -3 .. 3 /\ e.a.k # "pow" /\ Mild(e.a) [] OTHER -> Mild(e.a) /\ Mild(e.b)
Tame(h, k) == LET e == Ast(H(<<h, k, 9>>), 2) IN IF k = 0 THEN [k |-> "atom", w |-> "m", n |-> 1] ELSE IF Mild(e) THEN e ELSE Tame(h, k - 1)
Expr(h) == LET m == Pick(h, 6) IN
    CASE m < 3 -> A1(Word(H(<<h, 4>>)))
      [] m = 3 -> <<IdT(Word(H(<<h, 4>>)), Choose(<<1, 2, 3>>, h \div 7))>>
      [] OTHER -> Text(Tame(h, 5), 1, h)
MethodUnits(cf) == IF cf.mode = "brand" THEN {i \in Listed : Catalogue[i].base} ELSE Range(BaseI)
Job(c, n) ==
    LET h == H(<<Seed, c, n>>)  cf == Cfg(c)  syn == Syn(cf, h)
        t == CASE syn = "q" -> "f64" [] syn = "qT" -> Types[1 + Pick(h \div 7, 14)]
               [] syn = "m" -> Choose(<<"f64", "i32", "i64">>, h \div 7)
               [] syn = "lf" -> "f64" [] syn = "li" -> "i32"
               [] OTHER -> Choose(<<"f64", "f32", "i32", "i64", "u32", "u64">>, h \div 7)
        x == IF IsFloat(t) THEN (IF syn \in {"lf", "lT"} THEN Choose(LFloats, h \div 5) ELSE Choose(LFloats \o LSigned, h \div 5))
             ELSE IF syn \in {"li", "lT"} \/ ~IsSigned(t) THEN Choose(LInts, h \div 5) ELSE Choose(LInts \o LNegs, h \div 5)
        p == IF cf.mode = "brand" THEN 0 ELSE Pick(h \div 11, Len(Prefixes) + 1)
        mu == BaseI[1 + Pick(h \div 17, 8)]
        pn == IF p = 0 THEN "" ELSE Prefixes[p].name
        ts == CASE syn = "m" -> A1(pn \o Catalogue[mu].name)
                [] syn \in {"lf", "li", "lT"} -> A1(Suffix(H(<<h, 8>>), 6))
                [] OTHER -> Expr(h)
    IN [c |-> cf.c, n |-> n, syn |-> syn, t |-> t, x |-> x, ts |-> ts, pn |-> pn, name |-> IF syn = "m" THEN Catalogue[mu].name ELSE ""]
(* adding a quantity of the module to itself, with or without its brand *)
Mix(c, n) == [c |-> c, n |-> n, syn |-> "mix", bare |-> n = 1, t |-> "f64", x |-> "1.0", ts |-> A1(Choose(<<"m", "kg", "km", "N", "J", "K", "mol", "rad", "mV">>, c)), pn |-> "", name |-> ""]
(* every storage type with units of every other basis dimension                *)
Sweep(c, n) == LET k == n - PerConfig - 3  t == Types[1 + (k \div 4)]  d == 1 + 2 * (k % 4) + (c % 2)  h == H(<<Seed, c, n>>) IN
    [c |-> c, n |-> n, syn |-> "qT", t |-> t, x |-> IF IsFloat(t) THEN Choose(LFloats, h) ELSE Choose(LInts, h),
     ts |-> A1(Catalogue[BaseI[d]].syms[1]), pn |-> "", name |-> ""]
(* modules with one preference exchanged for something else                    *)
BadPref(k, h) ==
    LET other == SelectSeq([i \in 1 .. Len(Catalogue) |-> i], LAMBDA i : Catalogue[i].d = BasisD[k] /\ ~Prefers(k, [i |-> i, p |-> 0]))  m == Pick(h, 5) IN
    CASE m = 0 -> [i |-> 0, p |-> 0]
      [] m = 1 -> [i |-> BaseI[1 + ((k + Pick(h \div 5, 7)) % 8)], p |-> 0]
      [] m = 2 /\ Len(other) > 0 -> [i |-> Choose(other, h \div 5), p |-> 0]
      [] m = 3 -> Pref(k, h \div 5)                                   \* (nothing wrong)
      [] OTHER -> [i |-> BaseI[1 + ((k + Pick(h \div 5, 7)) % 8)], p |-> 1 + Pick(h \div 35, Len(Prefixes))]
Bad(n) == LET h == H(<<Seed, n, 83>>)  k == 1 + (n % 8)  f == [Prefs(h) EXCEPT ![k] = BadPref(k, H(<<h, 3>>))] IN
    [c |-> 1000 + n, n |-> -1, mode |-> "local", brand |-> n % 2 = 0, prefs |-> [j \in 1 .. 8 |-> f[j] @@ [w |-> PrefName(f[j])]]]
VARIABLES zC
Init == zC \in (1 .. Configs) \X (0 .. PerConfig + 2) \/ zC \in {c \in 1 .. Configs : c % 4 # 0} \X (PerConfig + 3 .. PerConfig + 58) \/ zC \in {<<n, -1>> : n \in 1 .. 4 * Configs}
Next == /\ zC[1] > 0 /\ zC' = [zC EXCEPT ![1] = -@]
        /\ PrintT("@@" \o ToJson(IF zC[2] = -1 THEN Bad(zC[1]) ELSE IF zC[2] = 0 THEN LET g == Cfg(zC[1]) IN [g EXCEPT !.prefs = [k \in 1 .. 8 |-> g.prefs[k] @@ [w |-> PrefName(g.prefs[k])]]] @@ [n |-> 0]
                                 ELSE IF zC[2] <= 2 THEN Mix(zC[1], zC[2]) ELSE IF zC[2] > PerConfig + 2 THEN Sweep(zC[1], zC[2]) ELSE Job(zC[1], zC[2])))
=============================================================================
