------------------------------ MODULE GuardGen ------------------------------
(* Generates pairs of operand types for every operation: equal, differing in   *)
(* exactly one of the fourteen parts of a quantity's type, or in two           *)
(* compensating parts; and plain numbers as operands.                          *)
EXTENDS Quantity, Rand, Json
CONSTANTS Seed, PerCase      \* PerCase: base types per (operation, difference)

QOps == <<"+", "-", "%", "+=", "-=", "%=", "<", "<=", ">", ">=", "==", "!=", "cmp", "assign", "call", "rescale", "*", "/">>
SOps == <<"+", "-", "%", "*", "/", "+=", "-=", "%=", "*=", "/=", "<", "==", "assign", "l+", "l-", "l*", "l/", "l%", "neg">>
Brands == <<"()", "B1", "B2">>
Other(seq, x, h) == LET k == CHOOSE j \in DOMAIN seq : seq[j] = x IN seq[1 + ((k - 1 + 1 + Pick(h, Len(seq) - 1)) % Len(seq))]

BaseExp(h) == LET m == Pick(h, 5) IN IF m < 2 THEN 0 ELSE IF m < 4 THEN Between(h \div 5, -3, 3) ELSE Between(h \div 5, -100, 100)
(* differences: 1..12 that exponent, 13 the type, 14 the brand, 15/16 none, 17 two dimension exponents exchanged, *)
(* 18 two scale exponents changed so that only their sum agrees, 19 all dimension exponents negated                *)
Delta(h) == Choose(<<1, -1, 2, -2, 1, -1, 7, 100, -100>>, h)
Diffs == 1 .. 19
Pair(op, df, n) ==
    LET hh(j) == H(<<Seed, n, df, Len(op), j>>)
        e == [j \in 1 .. 12 |-> BaseExp(hh(j))]
        e1 == IF df = 17 /\ e[1 + Pick(hh(30), 7)] = e[2 + Pick(hh(30), 7)] THEN [e EXCEPT ![1 + Pick(hh(30), 7)] = @ + 1] ELSE e
        e2 == IF df = 19 /\ \A j \in 1 .. 8 : e[j] = 0 THEN [e EXCEPT ![1 + Pick(hh(31), 8)] = 2] ELSE e1
        t == Types[1 + ((n + df + Seed) % 14)]
        b == Brands[1 + Pick(hh(20), 3)]
        a == 1 + Pick(hh(30), 7)
        s == 9 + Pick(hh(32), 3)
        f == CASE df \in 1 .. 12 -> [e2 EXCEPT ![df] = @ + Delta(hh(21))]
               [] df = 17 -> [e2 EXCEPT ![a] = e2[a + 1], ![a + 1] = e2[a]]
               [] df = 18 -> [e2 EXCEPT ![s] = @ + 1, ![s + 1] = @ - 1]
               [] df = 19 -> [j \in 1 .. 12 |-> IF j <= 8 THEN -e2[j] ELSE e2[j]]
               [] OTHER -> e2
        mk(x, tt, bb) == [d |-> SubSeq(x, 1, 8), s |-> SubSeq(x, 9, 12), t |-> tt, b |-> bb]
    IN [op |-> op, k |-> "q", df |-> df, p |-> mk(e2, t, b),
        q |-> mk(f, IF df = 13 THEN Other(Types, t, hh(22)) ELSE t, IF df = 14 THEN Other(Brands, b, hh(23)) ELSE b)]

(* plain numbers: of the same type, of another; the base has some dimension *)
Scalar(op, same, n) ==
    LET p == Pair(op, 15, n).p
        d == IF p.d = VZero(8) THEN [p.d EXCEPT ![1 + (n % 7)] = 1] ELSE p.d
    IN [op |-> op, k |-> "s", df |-> 0, p |-> [p EXCEPT !.d = d], x |-> IF same THEN p.t ELSE Other(Types, p.t, H(<<Seed, n, Len(op)>>))]

VARIABLES zC
TypePair(op, x, y, n) == LET r == Pair(op, 15, n) IN [r EXCEPT !.p.t = Types[x], !.q.t = Types[y], !.df = 13]
Init == zC \in [k : {"t"}, o : 1 .. Len(QOps), df : 1 .. 14, n : 1 .. 14] \cup [k : {"q"}, o : 1 .. Len(QOps), df : Diffs, n : 1 .. PerCase] \cup [k : {"s"}, o : 1 .. Len(SOps), df : 1 .. 2, n : 1 .. 14]
Next == /\ zC.n > 0
        /\ PrintT("@@" \o ToJson(IF zC.k = "t" THEN TypePair(QOps[zC.o], zC.df, zC.n, zC.o * 200 + zC.df * 14 + zC.n) ELSE IF zC.k = "q" THEN Pair(QOps[zC.o], zC.df, zC.n + 100 * zC.o) ELSE Scalar(SOps[zC.o], zC.df = 1, zC.n)))
        /\ zC' = [zC EXCEPT !.n = -@]
=============================================================================
