----------------------------- MODULE ReadoutGen -----------------------------
(* Pairs of ways to write a unit of one dimension, numbers to carry from one   *)
(* to the other, and pairs that must not be carried over.                      *)
EXTENDS UnitPairs, Json
CONSTANTS Seed, PerUnit, NCompound, NBad

FloatNums == <<"1.0", "2.5", "-40.0", "0.0", "1024.0", "0.1", "123456.789", "-0.75", "300.0", "7.0e20", "3.0e-15", "-1.0", "98.6">>
IntNums(t) == IF Bits(t) = 8 THEN <<"1", "7", "100", "3", "12", "127", "0">> ELSE <<"1", "7", "100", "3", "12", "2000", "0", "32000", "255">>
Signed(t) == IF Bits(t) = 8 THEN <<"-3", "-128", "-40", "90">> ELSE <<"-3", "-40", "-12345", "98", "-1">>
Num(t, h) == IF IsFloat(t) THEN Choose(FloatNums, h) ELSE Choose(IF IsSigned(t) THEN IntNums(t) \o Signed(t) ELSE IntNums(t), h)
Ty(h) == LET m == Pick(h, 5) IN IF m < 2 THEN "f64" ELSE IF m = 2 THEN "f32" ELSE Types[3 + Pick(h \div 5, 12)]

TextOf(e, h) == LET ts == Text(e, 1, h) IN ts
AllOf(t, b, A, B, h) == [t |-> t, b |-> b, A |-> A, B |-> B, ta |-> TextOf(A, h), tb |-> TextOf(B, h \div 3), x |-> Num(t, h \div 17)]
Single(c) == LET i == ListedSeq[c[2]]  h == H(<<Seed, c[2], c[3], 1>>)
                 all == Peers[i]
                 j == IF c[3] <= Len(all) THEN all[c[3]] ELSE Choose(all, h \div 3)
             IN AllOf(Ty(h), Choose(<<"()", "B1">>, h \div 9), Atom(Spell(j, H(<<h, 5, 5>>)), 1), Atom(Spell(i, H(<<h, 6, 6>>)), 1), h)
Compound(c) ==
    LET h == H(<<Seed, c[2], 2>>)  k == 1 + Pick(h, 2) IN
    IF c[2] % 3 # 0 THEN AllOf(Ty(h \div 7), Choose(<<"()", "B2">>, h \div 9), Comp(h, k, 0), Comp(h, k, 1), h)
    ELSE LET i == Choose(SelectSeq(ListedSeq, Plain), h \div 3)  w == Atom(Spell(i, h \div 5), 1)  p == Prod(Catalogue[i].d, 8, h) IN
         IF c[2] % 2 = 0 THEN AllOf(Ty(h \div 7), "()", w, p, h) ELSE AllOf(Ty(h \div 7), "()", p, w, h)
(* a part differs: dimension, storage type, brand *)
Bad(c) ==
    LET h == H(<<Seed, c[2], 3>>)  i == Choose(ListedSeq, h)  j == Choose(ListedSeq, h \div 3)  m == c[2] % 4
        t == Ty(h \div 7)  t2 == Types[1 + Pick(h \div 9, 14)]
        r == AllOf(t, "B1", Atom(Spell(i, H(<<h, 5, 5>>)), 1), Atom(Spell(IF m < 2 THEN j ELSE i, H(<<h, 6, 6>>)), 1), h)
    IN [ta |-> r.ta, tb |-> r.tb, A |-> r.A, B |-> r.B, x |-> r.x, b |-> r.b, t |-> t, t2 |-> IF m = 2 THEN t2 ELSE t, b2 |-> IF m = 3 THEN Choose(<<"()", "B2">>, h \div 8) ELSE "B1"]
VARIABLES zC
Init == \/ zC \in {"s"} \X (1 .. Len(ListedSeq)) \X (1 .. PerUnit)
        \/ zC \in {"c"} \X (1 .. NCompound) \X {0}
        \/ zC \in {"b"} \X (1 .. NBad) \X {0}
Next == /\ zC[3] >= 0 /\ zC' = [zC EXCEPT ![3] = -1 - @]
        /\ PrintT("@@" \o ToJson([c |-> zC] @@ CASE zC[1] = "s" -> Single(zC) [] zC[1] = "c" -> Compound(zC) [] OTHER -> Bad(zC)))
(* the two spellings of a pair have one dimension *)
SameDim == (zC[3] >= 0 /\ zC[1] # "b") => LET r == IF zC[1] = "s" THEN Single(zC) ELSE Compound(zC) IN Exact(r.A).d = Exact(r.B).d
=============================================================================
