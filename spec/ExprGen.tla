------------------------------ MODULE ExprGen -------------------------------
(* Generates unit expressions, damaged ones and special shapes.                *)
EXTENDS ExprShapes, Json
CONSTANTS Seed, N, NFamilies
(* c = <<family, number>> *)
Tokens(c) ==
    LET h == H(<<Seed, c[1], c[2]>>)  s == Text(Ast(h, 1 + Pick(h \div 3, 4)), 1, h) IN
    CASE c[1] = 1 -> s
      [] c[1] = 2 -> Damage(s, H(<<Seed, c[2], 55>>))
      [] c[1] = 3 -> Shape(1 + (c[2] % 20), h)
(* what is written is read back as what was meant *)
RoundTrip(c) ==
    c[1] = 1 => LET h == H(<<Seed, c[1], c[2]>>)  e == Ast(h, 1 + Pick(h \div 3, 4))  p == Parse(Tokens(c))
                    at == [w \in Words(e) |-> [d |-> Meaning(WordForm[w]).d, sc |-> <<WordForm[w].e, 0, WordForm[w].e, 0>>, off |-> Q0]]
                        a == MeaningX(e, at)  b == MeaningX(p.e, at)
                IN p.ok /\ a.d = b.d /\ a.sc = b.sc /\ a.cfs = b.cfs /\ a.fit = b.fit
VARIABLES zC
Init == zC \in (1 .. NFamilies) \X (1 .. N)
Next == /\ zC[1] > 0 /\ zC' = [zC EXCEPT ![1] = -@]
        /\ PrintT("@@" \o ToJson([c |-> zC, ts |-> Tokens(zC)]))
ReadBack == zC[1] > 0 => RoundTrip(zC)
=============================================================================
