----------------------------- MODULE BigNatSelf -----------------------------
(* Laws of BigNat over a spread of operands; run once with and once without    *)
(* the Java override: the printed digest must be the same.                     *)
EXTENDS BigNat, TLC
VARIABLE n
Xs == << <<>>, <<1>>, <<999>>, <<0, 1>>, <<999, 999>>, <<7, 0, 3>>, <<648, 483, 147, 2>>,
         <<0, 0, 0, 5>>, <<123, 456, 789, 12, 999, 999, 1>> >>
D == 1 .. Len(Xs)
Laws(a, b) ==
    /\ BAdd(a, b) = BAdd(b, a)
    /\ BSub(BAdd(a, b), b) = a
    /\ BMul(a, b) = BMul(b, a)
    /\ BCmp(a, b) = -BCmp(b, a)
    /\ b # <<>> => /\ BAdd(BMul(BDiv(a, b), b), BMod(a, b)) = a
                   /\ BLt(BMod(a, b), b)
                   /\ BDiv(BMul(a, b), b) = a
                   /\ a # <<>> => BMod(a, BGcd(a, b)) = <<>>
Digest == << [i \in D |-> [j \in D |-> << BAdd(Xs[i], Xs[j]), BMul(Xs[i], Xs[j]), BCmp(Xs[i], Xs[j]),
                BDiff(Xs[i], Xs[j]), IF Xs[j] = <<>> THEN 0 ELSE BDiv(Xs[i], Xs[j]),
                IF Xs[j] = <<>> THEN 0 ELSE BMod(Xs[i], Xs[j]), BGcd(Xs[i], Xs[j]) >>]],
             [i \in D |-> BPow(Xs[i], 5)], [k \in 0 .. 40 |-> BPow(<<2>>, 3 * k)],
             BFromNat(0), BFromNat(2147483647) >>
Init == n = 0 /\ PrintT(<<"digest", Digest>>)
Next == n < 1 /\ n' = n + 1
Inv == \A i, j \in D : Laws(Xs[i], Xs[j])
=============================================================================
