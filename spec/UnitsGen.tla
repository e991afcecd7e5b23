------------------------------ MODULE UnitsGen ------------------------------
(* Emits every way of writing a single unit, and texts that are not ways of    *)
(* writing a unit (prefixes on units that take none, doubled prefixes).        *)
EXTENDS Units, Json

ASSUME Unambiguous
ASSUME \A i, j \in Listed : i # j => WholeWords(Catalogue[i]) \intersect WholeWords(Catalogue[j]) = {}

SymWords == {f.w : f \in Forms}
AlienForms ==
    {[w |-> Prefixes[p].syms[1] \o Catalogue[i].syms[1], i |-> i, e |-> Prefixes[p].e, pre |-> p, kind |-> "alien"] :
        <<p, i>> \in {<<p, i>> \in (1 .. Len(Prefixes)) \X Listed : ~Catalogue[i].base}}
    \union
    {[w |-> Prefixes[p].name \o Catalogue[i].name, i |-> i, e |-> Prefixes[p].e, pre |-> p, kind |-> "alien"] :
        <<p, i>> \in {<<p, i>> \in (1 .. Len(Prefixes)) \X Listed : ~Catalogue[i].base}}
DoubleForms ==
    {[w |-> Prefixes[p].syms[1] \o Prefixes[q].syms[1] \o Catalogue[i].syms[1], i |-> i,
      e |-> Prefixes[p].e + Prefixes[q].e, pre |-> p, kind |-> "double"] :
        <<p, q, i>> \in {<<p, q, i>> \in (1 .. Len(Prefixes)) \X (1 .. Len(Prefixes)) \X {1, 11, 24, 48} : p # q /\ Catalogue[i].base}}

VARIABLES zF, zDone
Init == /\ zDone = FALSE
        /\ \/ \E g \in Forms : zF = [w |-> g.w, i |-> g.i, e |-> g.e, pre |-> g.pre, kind |-> "form"]
           \/ \E g \in AlienForms : g.w \notin SymWords /\ zF = g
           \/ \E g \in DoubleForms : g.w \notin SymWords /\ zF = g
Next == zDone = FALSE /\ zDone' = TRUE /\ zF' = zF /\ PrintT("@@" \o ToJson(zF))
=============================================================================
