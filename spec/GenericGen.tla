----------------------------- MODULE GenericGen -----------------------------
(* Generates definitions of dimension traits, and quantity types to put to     *)
(* them: of their dimensions at random scales, and of dimensions close by.     *)
EXTENDS GenericDim, ExprShapes, Quantity, Json
CONSTANTS Seed, N

DWord(h) == LET base == <<"M", "L", "T", "I", "{Theta}", "N", "J", "A">> IN
    IF Pick(h, 3) = 0 THEN Choose(base, h \div 3) ELSE DimWords[1 + Pick(h \div 5, Len(DimWords))].w
DExp(h) == Choose(<<2, 3, -1, -2, 4, 1, 0, 5, -3, -7, 12, 100, -300, 32767, -32768>>, h)
RECURSIVE DAst(_, _)
DAst(h, k) ==
    LET a(j) == DAst(H(<<h, j, k>>), k - 1)  m == Pick(h, 12) IN
    IF k = 0 \/ m < 2
    THEN IF Pick(h \div 31, 9) = 0 THEN [k |-> "num", v |-> 1]
         ELSE [k |-> "atom", w |-> DWord(H(<<h, 77, k>>)), n |-> Choose(<<1, 1, 1, 2, 3, -1, -2, 4, 0, 12>>, h \div 37)]
    ELSE IF m < 6 THEN [k |-> "mul", a |-> a(1), b |-> a(2)]
    ELSE IF m < 10 THEN [k |-> "div", a |-> a(1), b |-> a(2)]
    ELSE [k |-> "pow", a |-> a(1), n |-> DExp(h \div 41)]
DOdd(h) == Choose(<<IdT("Lenght", 1), IdT("m", 1), IdT("Meter", 1), IdT("mass", 1), IdT("l", 1), IdT("Q", 1), IdT("LT", 1), IdT("X", 2), NumT(2), NumT(10), NumT(0), IdT("L", 32768), IdT("Speed", 1), IdT("{Theta}", 3), IdT("K", 1)>>, h)
Written(h) == Text(DAst(h, 1 + Pick(h \div 3, 3)), 1, h)
OneExpr(h, damaged) ==
    LET s == Written(h)  i == 1 + Pick(h \div 19, Len(s)) IN
    IF ~damaged THEN s ELSE IF Pick(h \div 7, 2) = 0 THEN Damage(s, H(<<h, 5>>)) ELSE [s EXCEPT ![i] = DOdd(H(<<h, 6>>))]
Alternatives(n) ==
    LET h == H(<<Seed, n>>)  k == IF Pick(h, 3) = 0 THEN 2 + Pick(h \div 3, 3) ELSE 1  d == n % 4 = 0 IN
    IF n <= Len(DimWords) THEN <<A1(DimWords[n].w)>>
    ELSE [j \in 1 .. k |-> OneExpr(H(<<Seed, n, j>>), d /\ j = 1 + (Pick(h \div 11, k)))]
Clamp16(v) == [i \in DOMAIN v |-> IF v[i] > 32767 THEN 32767 ELSE IF v[i] < -32768 THEN -32768 ELSE v[i]]
Unitv(i, x) == [j \in 1 .. 8 |-> IF j = i THEN x ELSE 0]
RECURSIVE Join(_, _)
Join(s, i) == IF i = 0 THEN {} ELSE Join(s, i - 1) \union s[i]
Near(d) == {d} \union {Clamp16(VAdd(d, Unitv(i, 1))) : i \in 1 .. 8} \union {Clamp16(VAdd(d, Unitv(i, -1))) : i \in 1 .. 8} \union {Clamp16(VMul(d, -1)), Clamp16(VMul(d, 2)), VZero(8)}
           \union {[d EXCEPT ![i] = d[j], ![j] = d[i]] : <<i, j>> \in {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 5>>, <<5, 6>>, <<6, 7>>, <<7, 8>>, <<8, 2>>}}
Dims(alts) == Join([j \in DOMAIN alts |-> IF Readable(alts[j]) THEN {Clamp16(DimD(alts[j]))} ELSE {}], Len(alts))
RScale(h) == [i \in 1 .. 4 |-> IF Pick(H(<<h, i>>), 3) = 0 THEN 0 ELSE Choose(<<3, -3, 6, 1, -1, 2, 12, -30, 100>>, H(<<h, i, 2>>))]
RECURSIVE Asked(_, _, _)
SetSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Asked(ds, n, i) == IF i = 0 THEN <<>> ELSE LET h == H(<<Seed, n, i, 3>>) IN Asked(ds, n, i - 1) \o <<[d |-> ds[i], s |-> IF Pick(h, 4) = 0 THEN VZero(4) ELSE RScale(h), t |-> Types[1 + Pick(h \div 5, 14)]]>>
Job(n) == LET alts == IF n <= 0 THEN <<A1(Predefined[1 - n])>> ELSE Alternatives(n)
              ds == Dims(alts)
              own == SetSeq(ds)
              all == own \o own \o own \o SetSeq(Join([j \in DOMAIN own |-> Near(own[j])], Len(own)))
          IN [n |-> n, alts |-> alts, ask |-> Asked(all, n + 20, Len(all))]
VARIABLES zC
Init == zC \in {<<n, 0>> : n \in -7 .. N}
Next == /\ zC[2] = 0 /\ zC' = <<zC[1], 1>>
        /\ PrintT("@@" \o ToJson(Job(zC[1])))
=============================================================================
