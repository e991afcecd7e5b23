------------------------------- MODULE Texts --------------------------------
(* Texts in which quantity types are replaced by readable ones.                *)
(*                                                                             *)
(* A text is a sequence of pieces: words (a literal), and written quantity     *)
(* types.  A rewritten text is the same sequence of pieces, every literal as   *)
(* it was; a written type stands there as it was or as another type            *)
(* Quantity<unit, storage[, brand]>.  Which of the two, and which units:       *)
(*   need = "must"  the type is concrete and stands where types are rewritten  *)
(*          "may"   concrete, elsewhere                                        *)
(*          "keep"  not a concrete quantity type                               *)
(* d, s are the exponents of a type; those in ud, us (sets of indices, as      *)
(* sequences) are not known yet, written "_".                                  *)
EXTENDS Display

(* ---- units with unknown exponents: a word may carry the mark {?} instead of *)
(* an exponent                                                                 *)
Mark(ts, i) == DIs(ts, i, "{?}")
AsKnown(ts) == [i \in DOMAIN ts |-> IF Mark(ts, i) THEN [k |-> "sup", n |-> 0] ELSE ts[i]]
Unit8(j) == [i \in 1 .. 8 |-> IF i = j THEN 1 ELSE 0]
(* the dimensions whose exponents are marked *)
Marked(ts) == {j \in 1 .. 8 : \E i \in 1 .. Len(ts) - 1 : ts[i].k = "w" /\ Mark(ts, i + 1) /\ Known(ts[i].w) /\ Meaning(WordForm[ts[i].w]).d = Unit8(j)}
Marks(ts) == Cardinality({i \in DOMAIN ts : Mark(ts, i)})
IsUnknown(ts) == Len(ts) = 1 /\ DIs(ts, 1, "?")
SetOf(q) == {q[i] : i \in DOMAIN q}
Hide(d, q) == [i \in DOMAIN d |-> IF i \in SetOf(q) THEN 0 ELSE d[i]]
(* a name for a type with unknown exponents: it says so, and what it shows of  *)
(* the known ones is right.  The scale is not judged when the exponent of mass *)
(* is unknown, since it is counted from the kilogram but named from the gram,   *)
(* nor beside a single marked word, whose prefix the unknown exponent is on.    *)
PartOK(ts, d, s, ud, us) ==
    IF IsUnknown(ts) THEN ""
    ELSE IF Marks(ts) = 0 THEN "a definite unit is shown for a type that is not known"
    ELSE IF Marks(ts) # Cardinality(Marked(ts)) \/ Marked(ts) # SetOf(ud) THEN "other exponents are marked as unknown"
    ELSE IF Len(us) > 0 \/ 1 \in SetOf(ud) \/ Len(ts) = 2 THEN (LET q == DName(AsKnown(ts)) IN IF ~q.ok THEN "the displayed unit cannot be read" ELSE IF q.d # Hide(d, ud) THEN "the displayed unit has another dimension" ELSE "")
    ELSE NameOK(AsKnown(ts), Hide(d, ud), s)
IsOne(ts) == Len(ts) = 1 /\ ts[1].k = "dec" /\ ts[1].x = [s |-> 1, m |-> <<1>>, e |-> 0]
FullOK(ts, d, s) ==
    IF IsOne(ts) THEN (IF d = VZero(8) /\ s = VZero(4) THEN "" ELSE "the displayed unit has another dimension or scale")
    ELSE NameOK(ts, d, s)
UnitOK(ts, d, s, ud, us) == IF ud = <<>> /\ us = <<>> THEN FullOK(ts, d, s) ELSE PartOK(ts, d, s, ud, us)
(* exponents listed in full, with marks *)
LDimKeys == <<"mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle">>
LScaleKeys == <<"2", "3", "5", "{pi}">>
Shown(v, u, j) == j \in SetOf(u) \/ v[j] # 0
ListOK(l, keys, v, u) ==
    /\ \A i \in DOMAIN l : \E j \in DOMAIN keys : l[i].key = keys[j] /\ (IF j \in SetOf(u) THEN l[i].q ELSE ~l[i].q /\ l[i].n = v[j])
    /\ \A j \in DOMAIN keys : Shown(v, u, j) => Cardinality({i \in DOMAIN l : l[i].key = keys[j]}) = 1
    /\ Len(l) = Cardinality({j \in DOMAIN keys : Shown(v, u, j)})
(* a type of which too little is known is shown as ? without a listing *)
ListingsOK(e) == IsUnknown(e.ts) \/ IsOne(e.ts)
                 \/ (ListOK(e.ds, LDimKeys, e.d, e.ud) /\ (Len(e.us) > 0 \/ ListOK(e.ss, LScaleKeys, e.s, <<>>)))

(* ---- the type written as a unit expression ---- *)
MacroOK(ts, d, s, ud, us) ==
    LET p == Parse(ts) IN
    IF ud # <<>> \/ us # <<>> THEN (IF p.ok THEN "a definite unit is inserted for a type that is not known" ELSE "")
    ELSE LET r == Reading(ts) IN
         IF r.st = "bad" THEN "the inserted unit cannot be read"
         ELSE IF r.st = "dims" /\ r.d = <<>> THEN ""
         ELSE IF r.d # d THEN "the inserted unit has another dimension"
         ELSE IF r.st = "ok" /\ ~(r.mn.p = s[4] /\ QEq(r.mn.m, ScaleQ(<<s[1], s[2], s[3], 0>>))) THEN "the inserted unit has another scale"
         ELSE ""

(* ---- writing types ---- *)
DimNames == <<"_M", "_L", "_T", "_I", "_{Theta}", "_N", "_J", "_A">>
ScaleNames == <<"_2", "_3", "_5", "_Pi">>
RECURSIVE Joined(_, _, _)
Joined(q, sep, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o Joined(q, sep, i + 1)
Last(v, u) == IF \E j \in DOMAIN v : Shown(v, u, j) THEN CHOOSE j \in DOMAIN v : Shown(v, u, j) /\ \A i \in DOMAIN v : i > j => ~Shown(v, u, i) ELSE 0
(* one parameter: its value written out, left to its default, or unknown *)
Param(n, v, u, j, form, h) ==
    IF j \in SetOf(u) THEN (IF form = "skip" \/ h % 3 # 0 THEN n[j] \o "<_>" ELSE "_")
    ELSE IF v[j] = 0 /\ form = "default" THEN n[j]
    ELSE n[j] \o "<" \o ToString(v[j]) \o ">"
Params(n, v, u, form, h) ==
    LET js == IF form = "skip" THEN SelectSeq([j \in DOMAIN v |-> j], LAMBDA j : Shown(v, u, j))
              ELSE [j \in 1 .. (IF form = "short" THEN Last(v, u) ELSE Len(v)) |-> j]
    IN [i \in DOMAIN js |-> Param(n, v, u, js[i], form, h + js[i])]
Struct(name, n, v, u, form, sep, h) ==
    IF Len(u) = Len(v) /\ form = "whole" THEN "_"
    ELSE LET p == Params(n, v, u, IF form = "whole" THEN "named" ELSE form, h) IN IF p = <<>> THEN name ELSE name \o "<" \o Joined(p, sep, 1) \o ">"
TypeHead(q) == "Quantity<" \o Struct("Scale", ScaleNames, q.s, q.us, q.fs, q.sep, q.h) \o q.sep \o Struct("Dimension", DimNames, q.d, q.ud, q.fd, q.sep, q.h + 1)
=============================================================================
