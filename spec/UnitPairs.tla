----------------------------- MODULE UnitPairs ------------------------------
(* Ways of writing units, and pairs of expressions of one dimension.           *)
EXTENDS Readout, Rand
(* units of the dimension of unit i *)
Peers == [i \in Listed |-> SelectSeq(ListedSeq, LAMBDA j : Catalogue[j].d = Catalogue[i].d)]
(* a word for unit i *)
Spell(i, h) ==
    LET u == Catalogue[i]
        plain == IF Pick(h \div 7, 3) = 0 THEN u.name ELSE Choose(u.syms, h \div 11)
        p == Prefixes[IF Pick(h \div 29, 3) = 0 THEN 1 + Pick(h \div 13, Len(Prefixes)) ELSE 8 + Pick(h \div 13, 10)]
        pre == IF Pick(h \div 17, 4) = 0 THEN p.name \o u.name ELSE Choose(p.syms, h \div 19) \o Choose(u.syms, h \div 11)
    IN IF u.base /\ Pick(h \div 23, 2) = 0 /\ pre \notin Whole THEN pre ELSE plain
Plain(i) == Catalogue[i].off.s = 0
Peer(i, h) == Choose(SelectSeq(Peers[i], Plain), h)
Atom(w, n) == [k |-> "atom", w |-> w, n |-> n]

(* a compound, in two spellings: leaves name a unit; b = which spelling *)
RECURSIVE Comp(_, _, _)
Comp(h, k, b) ==
    LET c(j) == Comp(H(<<h, j, k>>), k - 1, b)  m == Pick(h, 8)
        i0 == Choose(SelectSeq(ListedSeq, Plain), h \div 5)
        i == IF Pick(h \div 3, 3) = 0 THEN Choose(<<11, 22, 1, 23, 24, 12, 13>>, h \div 9) ELSE i0
    IN IF k = 0 \/ m = 0 THEN Atom(Spell(IF b = 0 THEN i ELSE Peer(i, H(<<h, b, 3>>)), H(<<h, b, 4>>)), Choose(<<1, 1, 1, 2, -1, 3, -2>>, h \div 37))
       ELSE IF m < 4 THEN [k |-> "mul", a |-> c(1), b |-> c(2)]
       ELSE IF m < 7 THEN [k |-> "div", a |-> c(1), b |-> c(2)]
       ELSE [k |-> "pow", a |-> c(1), n |-> Choose(<<2, -1, 3, -2>>, h \div 41)]
(* the coherent product of base units for a dimension vector *)
BaseIdx == <<1, 11, 22, 29, 30, 34, 35, 37>>
RECURSIVE Prod(_, _, _)
Prod(d, j, h) ==
    IF j = 0 THEN [k |-> "num", v |-> 1]
    ELSE IF d[j] = 0 THEN Prod(d, j - 1, h)
    ELSE LET a == Atom(Spell(Peer(BaseIdx[j], H(<<h, j, 1>>)), H(<<h, j, 2>>)), d[j])  r == Prod(d, j - 1, h) IN
         IF r.k = "num" THEN a ELSE IF d[j] < 0 /\ Pick(H(<<h, j, 3>>), 2) = 0 THEN [k |-> "div", a |-> r, b |-> [a EXCEPT !.n = -@]] ELSE [k |-> "mul", a |-> r, b |-> a]
=============================================================================
