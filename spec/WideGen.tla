------------------------------ MODULE WideGen ------------------------------
(* Behaviours of the register machine over the whole range of 16-bit exponents  *)
(* (the build using generic constant expressions).  "good" chains stay inside    *)
(* the range; a "bad" case is one operation of which exactly one resulting       *)
(* exponent would leave it.                                                      *)
EXTENDS Quantity, Rand, Json
CONSTANTS Seed, NGood, NBad, ChainLen

Lo == -32768
Hi == 32767
Brands == <<"()", "B1", "B2">>
Edges == <<0, 1, -1, 127, 128, -128, -129, 200, 201, -201, 255, 256, 400, 401, -401, 4095, 16383, 16384, -16384, 32766, 32767, -32767, -32768>>
In(x) == x >= Lo /\ x <= Hi
MaxW(a, b) == IF a >= b THEN a ELSE b
MinW(a, b) == IF a <= b THEN a ELSE b
(* an exponent in lo..hi, often an end of the interval or a power of two         *)
Wide(h, lo, hi) ==
    LET m == Pick(h, 8)  e == Choose(Edges, h \div 8) IN
    CASE m < 3 -> (IF e >= lo /\ e <= hi THEN e ELSE Between(h \div 8, lo, hi))
      [] m = 3 -> lo [] m = 4 -> hi
      [] m = 5 -> (IF lo <= 0 /\ hi >= 0 THEN 0 ELSE lo)
      [] OTHER -> Between(h \div 8, lo, hi)
Val(t, h) == IF IsFloat(t) THEN [n |-> Between(h, 1, 4000), e |-> Between(h \div 7, -6, 6)]
             ELSE [n |-> Between(h, 1, IF Bits(t) = 8 THEN 6 ELSE 30), e |-> 0]
(* operands whose sum (sign 1) or difference with reg stays inside               *)
Fit(h(_), reg, sign) == [i \in 1 .. 12 |->
    IF sign = 1 THEN Wide(h(i), MaxW(Lo, Lo - reg[i]), MinW(Hi, Hi - reg[i]))
    ELSE Wide(h(i), MaxW(Lo, reg[i] - Hi), MinW(Hi, reg[i] - Lo))]

VARIABLES zC, zK, zReg, zOps, zT, zB
NoInverse(v) == \E i \in 1 .. 12 : v[i] = Lo
Ops(t, r) == <<"*q", "/q", "*q", "/q", "+q", "-q", "*s">> \o (IF IsSigned(t) THEN <<"neg">> ELSE <<>>) \o (IF NoInverse(r) THEN <<>> ELSE <<"/l", "/l">>)

Init == /\ zC \in (1 .. NGood) \cup (20001 .. 20000 + NBad)
        /\ zK = 0
        /\ zT = Types[1 + ((zC + Seed) % 14)]
        /\ zB = Brands[1 + ((zC \div 14) % 3)]
        /\ zReg = [i \in 1 .. 12 |-> Wide(H(<<Seed, zC, 0, i>>), Lo, Hi)]
        /\ zOps = <<[op |-> "new", e |-> zReg, v |-> Val(zT, H(<<Seed, zC, 0, 77>>))]>>
Good ==
    /\ zC <= NGood /\ zK < ChainLen
    /\ LET hh(i) == H(<<Seed, zC, zK + 1, i>>)
           o == Choose(Ops(zT, zReg), hh(50))
           op == [op |-> o, e |-> CASE o = "*q" -> Fit(hh, zReg, 1) [] o = "/q" -> Fit(hh, zReg, -1) [] OTHER -> zReg, v |-> Val(zT, hh(51))]
       IN /\ zOps' = Append(zOps, op)
          /\ zReg' = CASE o = "*q" -> VAdd(zReg, op.e) [] o = "/q" -> VSub(zReg, op.e) [] o = "/l" -> VNeg(zReg) [] OTHER -> zReg
    /\ zK' = zK + 1 /\ UNCHANGED <<zC, zT, zB>>
    /\ (zK' < ChainLen \/ PrintT("@@" \o ToJson([k |-> "good", c |-> zC, t |-> zT, b |-> zB, ops |-> zOps'])))

(* one exponent, at position p, leaves the range; by one, or by more             *)
Bad ==
    /\ zC > 20000 /\ zK = 0
    /\ LET hh(i) == H(<<Seed, zC, 1, i>>)
           p == 1 + Pick(hh(40), 12)
           up == Pick(hh(41), 2) = 0
           o == Choose(<<"*q", "/q", "*q", "/q", "/l">>, hh(42))
           r == [zReg EXCEPT ![p] = IF o = "/l" THEN Lo ELSE IF up THEN Between(hh(43), 1, Hi) ELSE Between(hh(43), Lo, IF o = "/q" THEN -2 ELSE -1)]
           far == Pick(hh(44), 3) = 0
           \* the operand that reaches just outside, or anywhere further
           x == IF o = "*q" THEN (IF up THEN Between(hh(45), Hi - r[p] + 1, IF far THEN Hi ELSE Hi - r[p] + 1)
                                  ELSE Between(hh(45), IF far THEN Lo ELSE Lo - r[p] - 1, Lo - r[p] - 1))
                ELSE IF up THEN Between(hh(45), IF far THEN Lo ELSE r[p] - Hi - 1, r[p] - Hi - 1)
                ELSE Between(hh(45), r[p] - Lo + 1, IF far THEN Hi ELSE r[p] - Lo + 1)
           f == IF o = "*q" THEN Fit(hh, r, 1) ELSE Fit(hh, r, -1)
           e == IF o = "/l" THEN r ELSE [f EXCEPT ![p] = x]
           r2 == IF o = "/l" THEN [i \in 1 .. 12 |-> IF i = p THEN Lo ELSE MaxW(r[i], Lo + 1)] ELSE r
           res == CASE o = "*q" -> VAdd(r2, e) [] o = "/q" -> VSub(r2, e) [] o = "/l" -> VNeg(r2)
       IN /\ Assert(In(e[p]) /\ {i \in 1 .. 12 : ~In(res[i])} = {p}, <<"bad case", zC, o, r2, e>>)
          /\ PrintT("@@" \o ToJson([k |-> "bad", c |-> zC, t |-> zT, b |-> zB, op |-> o, p |-> r2, q |-> e, at |-> p, by |-> res[p]]))
    /\ zK' = 1 /\ UNCHANGED <<zC, zT, zB, zReg, zOps>>
Next == Good \/ Bad
=============================================================================
