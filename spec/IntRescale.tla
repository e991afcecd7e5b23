----------------------------- MODULE IntRescale -----------------------------
(* The rescaling algorithm itself, on small words, against the rational        *)
(* specification: every stored value, every reduced factor.  Steps: fit the    *)
(* factor, multiply first if the product fits, otherwise long division.        *)
EXTENDS Integers, TLC
CONSTANTS NLo, Hi, NWLo, WHi, MaxF
Lo == -NLo
WLo == -NWLo
VARIABLES pc, v, n, d, out, acc
NBits == 8
Abs(x) == IF x < 0 THEN -x ELSE x
Tdiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
In(x) == Lo <= x /\ x <= Hi
InW(x) == WLo <= x /\ x <= WHi
Init == /\ pc = "start" /\ v \in Lo .. Hi /\ n \in 1 .. MaxF /\ d \in 1 .. MaxF /\ Gcd(n, d) = 1 /\ out = 0 /\ acc = [part |-> 0, rem |-> 0, bit |-> 0]
Start == pc = "start" /\ pc' = (IF In(n) /\ In(d) THEN "narrow" ELSE "wide") /\ UNCHANGED <<v, n, d, out>>
Narrow == /\ pc = "narrow"
          /\ IF In(v * n) THEN out' = Tdiv(v * n, d) /\ pc' = "done" ELSE out' = 0 /\ pc' = "wide"
          /\ UNCHANGED <<v, n, d>>
(* binary long division of the magnitude: (|v| div d) * n + ((|v| mod d) * n) div d, *)
(* with no intermediate beyond the wide word                                         *)
Wide == /\ pc = "wide"
        /\ acc' = [part |-> 0, rem |-> 0, bit |-> NBits] /\ pc' = "divide"
        /\ UNCHANGED <<v, n, d, out>>
Divide == /\ pc = "divide" /\ acc.bit > 0
          /\ LET step == Abs(v) % d
                 b == (n \div (2 ^ (acc.bit - 1))) % 2
                 r1 == 2 * acc.rem   p1 == 2 * acc.part
                 r2 == IF r1 >= d THEN r1 - d ELSE r1   p2 == IF r1 >= d THEN p1 + 1 ELSE p1
                 r3 == r2 + b * step
             IN acc' = [bit |-> acc.bit - 1, rem |-> IF r3 >= d THEN r3 - d ELSE r3, part |-> IF r3 >= d THEN p2 + 1 ELSE p2]
          /\ UNCHANGED <<pc, v, n, d, out>>
Finish == /\ pc = "divide" /\ acc.bit = 0
          /\ LET m == (Abs(v) \div d) * n + acc.part   x == IF v < 0 THEN -m ELSE m IN
             IF m <= 2 * WHi + 1 /\ In(x) THEN out' = x /\ pc' = "done" ELSE out' = 0 /\ pc' = "panic"
          /\ UNCHANGED <<v, n, d, acc>>
Next == ((Start \/ Narrow) /\ UNCHANGED acc) \/ Wide \/ Divide \/ Finish
Exact == Tdiv(v * n, d)
(* the property, as in Rescale!IntOK *)
Visible == pc = "panic" => ~In(Exact)
True1 == pc = "done" => In(Exact)
Precise == pc = "done" => out = Exact
Small == acc.rem < d /\ 2 * acc.rem <= 2 * WHi + 1 /\ acc.rem + d <= 2 * WHi + 1   \* nothing leaves the wide word
=============================================================================
