------------------------------- MODULE Local --------------------------------
(* Modules of local declarators.  A module either prefers one storage unit per *)
(* basis dimension - everything declared in it is then stored at the scale     *)
(* those units give to its dimension - or only adds a brand.                   *)
(* A preference is [i |-> unit, p |-> prefix index or 0].                      *)
EXTENDS Declare, UnitExpr, Rand

(* units other than base units that are pure powers of 2, 3, 5 and pi          *)
Pure == <<[n |-> "carat", s |-> <<-3, 0, -4, 0>>], [n |-> "month", s |-> <<8, 4, 3, 0>>], [n |-> "minute", s |-> <<2, 1, 1, 0>>], [n |-> "hour", s |-> <<4, 2, 2, 0>>], [n |-> "day", s |-> <<7, 3, 2, 0>>],
          [n |-> "degree", s |-> <<-2, -2, -1, 1>>], [n |-> "turn", s |-> <<1, 0, 0, 1>>],
          [n |-> "gradian", s |-> <<-3, 0, -2, 1>>], [n |-> "arcminute", s |-> <<-4, -3, -2, 1>>], [n |-> "arcsecond", s |-> <<-6, -4, -3, 1>>],
          [n |-> "lumen", s |-> <<0, 0, 0, 0>>], [n |-> "celsius", s |-> <<0, 0, 0, 0>>], [n |-> "rankine", s |-> <<0, -2, 1, 0>>], [n |-> "fahrenheit", s |-> <<0, -2, 1, 0>>]>>
Ix == [n \in {Catalogue[i].name : i \in Listed} |-> CHOOSE i \in Listed : Catalogue[i].name = n]
ASSUME \A k \in DOMAIN Pure : QEq(ScaleQ(Pure[k].s), MagQ(MeaningU(Catalogue[Ix[Pure[k].n]], 0)))
PureOf(d) == SelectSeq(Pure, LAMBDA p : Catalogue[Ix[p.n]].d = d)
BasisD == <<dMass, dLen, dTime, dCur, dTemp, dAmt, dLum, dAng>>
BaseI == [k \in 1 .. 8 |-> CHOOSE i \in Listed : Catalogue[i].d = BasisD[k] /\ Catalogue[i].base]

PrefE(p) == IF p = 0 THEN 0 ELSE Prefixes[p].e
PrefScale(a) == LET e == PrefE(a.p)
                    u == Catalogue[a.i].name
                    s == IF Catalogue[a.i].base THEN (IF u = "gram" THEN <<-3, 0, -3, 0>> ELSE VZero(4))
                         ELSE (CHOOSE k \in Range(Pure) : k.n = u).s
                IN VAdd(s, <<e, 0, e, 0>>)
ASSUME \A k \in 1 .. 8 : QEq(ScaleQ(PrefScale([i |-> BaseI[k], p |-> 0])), MagQ(MeaningU(Catalogue[BaseI[k]], 0)))
RECURSIVE LocalSum(_, _, _)
LocalSum(prefs, d, k) == IF k = 0 THEN VZero(4) ELSE VAdd(VMul(PrefScale(prefs[k]), d[k]), LocalSum(prefs, d, k - 1))
(* the scale at which a module with these preferences stores dimension d *)
LocalScale(prefs, d) == LocalSum(prefs, d, 8)

(* a preference is a base unit of its dimension, prefixed or not, or another    *)
(* unit of it that is a scale                                                  *)
Prefers(k, a) == a.i > 0 /\ Catalogue[a.i].d = BasisD[k] /\ (Catalogue[a.i].base \/ (a.p = 0 /\ Catalogue[a.i].name \in {Pure[n].n : n \in DOMAIN Pure}))
ValidPrefs(prefs) == \A k \in 1 .. 8 : Prefers(k, prefs[k])

(* how the preference is named: a prefix and the unit's name, as one           *)
(* capitalised word; the parts are joined by the driver                        *)
PrefName(a) == IF a.i = 0 THEN <<"", "furlang">> ELSE <<IF a.p = 0 THEN "" ELSE Prefixes[a.p].name, Catalogue[a.i].name>>

Pref(k, h) ==
    LET more == PureOf(BasisD[k])  kilo == 15
        moderate == <<10, 11, 15, 16, 9, 14, 8>>  m == Pick(h, 10)
    IN CASE m < 3 -> [i |-> BaseI[k], p |-> IF k = 1 THEN kilo ELSE 0]
         [] m < 6 -> [i |-> BaseI[k], p |-> Choose(moderate, h \div 11)]
         [] m < 7 -> [i |-> BaseI[k], p |-> 0]
         [] m < 9 /\ Len(more) > 0 -> [i |-> Ix[Choose(more, h \div 11).n], p |-> 0]
         [] OTHER -> [i |-> BaseI[k], p |-> 1 + Pick(h \div 13, Len(Prefixes))]
Prefs(h) == [k \in 1 .. 8 |-> Pref(k, H(<<h, k, 5>>))]
=============================================================================
