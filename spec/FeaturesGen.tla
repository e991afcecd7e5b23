----------------------------- MODULE FeaturesGen ----------------------------
(* Every selection of features with every kind of program.                     *)
EXTENDS Features, Json
VARIABLES zF, zO
Init == zF \in SUBSET AllFeatures /\ zO \in DOMAIN Takes
Next == /\ zO \in DOMAIN Takes /\ zO' = "" /\ zF' = zF
        /\ PrintT("@@" \o ToJson([f |-> zF, o |-> zO]))
(* more features never offer less *)
Monotone == zO \in DOMAIN Takes => \A G \in SUBSET AllFeatures : (zF \subseteq G /\ Offers(zF, zO)) => Offers(G, zO)
=============================================================================
