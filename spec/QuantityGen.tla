---------------------------- MODULE QuantityGen -----------------------------
(* Generates behaviours of the register machine: chains of operations whose    *)
(* guards hold.  Two families: random chains, and table walks in which every   *)
(* exponent the stable build supports occurs as operand and as result.         *)
EXTENDS Quantity, Rand, Json
CONSTANTS Seed, NChains, ChainLen, NWalks, OnlySame

Brands == <<"()", "B1", "B2">>
Lim == 200
Sep(v) == [d |-> SubSeq(v, 1, 8), s |-> SubSeq(v, 9, 12)]
Cat(p) == p.d \o p.s

(* an exponent: mostly small, sometimes anywhere in the supported range        *)
Exp(h, lo, hi) == LET m == Pick(h, 8) IN
    IF m < 3 THEN (IF 0 \in lo .. hi THEN 0 ELSE lo)
    ELSE IF m < 6 THEN (LET e == (Pick(h \div 8, 9)) - 4 IN IF e \in lo .. hi THEN e ELSE Between(h, lo, hi))
    ELSE IF m = 6 THEN Between(h \div 8, lo, hi)
    ELSE (IF Pick(h \div 8, 2) = 0 THEN lo ELSE hi)

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

(* a stored number, written n * 2^e, or one of the special floats: zeros,      *)
(* infinities, NaN, the least and the greatest                                 *)
Specials == <<"0", "-0", "-0", "inf", "-inf", "nan", "min", "max", "0", "-0">>
Value(t, h, zero) ==
    IF IsFloat(t) THEN (IF Pick(h \div 13, 14) = 0 THEN [sp |-> Choose(Specials, h \div 17)]
                        ELSE [n |-> (Between(h, 0, 4000) - 2000) * 2 + 1, e |-> Between(h \div 7, -12, 6)])
    ELSE LET hi == IF Bits(t) = 8 THEN 6 ELSE IF Bits(t) = 16 THEN 40 ELSE 900
             n == Between(h, IF IsSigned(t) THEN -hi ELSE 0, hi)
             \* one in sixteen at a limit of the type: 2^(Bits-1)-1 etc. come from shifts
         IN IF n = 0 /\ ~zero THEN [n |-> 1, e |-> 0]
            ELSE IF Pick(h \div 11, 16) = 0 THEN [n |-> (IF n < 0 /\ IsSigned(t) THEN -1 ELSE 1), e |-> Bits(t) - 2]
            ELSE [n |-> n, e |-> 0]

(* the operand exponents that keep register + sign*operand within +-lim        *)
Operand(c, k, reg, sign, lim) ==
    [i \in 1 .. 12 |->
       LET r == reg[i]
           lo == IF sign = 1 THEN MaxI(-Lim, -lim - r) ELSE MaxI(-Lim, r - lim)
           hi == IF sign = 1 THEN MinI(Lim, lim - r) ELSE MinI(Lim, r + lim)
       IN Exp(H(<<Seed, c, k, i>>), lo, hi)]

Ops(t) == IF OnlySame THEN <<"+q", "-q", "%q", "+=q", "-=q", "%=q">> ELSE <<"*q", "/q", "*q", "/q", "*s", "/s", "%s", "*l", "/l", "+q", "-q", "%q", "+=q", "-=q", "%=q", "*=s", "/=s", "%=s">>
          \o (IF IsSigned(t) THEN <<"neg", "neg">> ELSE <<>>)

VARIABLES zC, zK, zReg, zOps, zT, zB
vars == <<zC, zK, zReg, zOps, zT, zB>>

WalkReg(w) == [i \in 1 .. 12 |-> MaxI(-Lim, MinI(Lim, -Lim + (w - 1) * 12 + (i - 1)))]

Init ==
    \/ /\ zC \in 1 .. NChains
       /\ zK = 0
       /\ zT = Types[1 + ((zC + Seed) % 14)]
       /\ zB = Brands[1 + ((zC \div 14) % 3)]
       /\ zReg = [i \in 1 .. 12 |-> Exp(H(<<Seed, zC, 0, i>>), -Lim, Lim)]
       /\ zOps = <<[op |-> "new", e |-> zReg, v |-> Value(zT, H(<<Seed, zC, 0, 77>>), TRUE)]>>
    \/ /\ zC \in 10001 .. 10000 + 7 * NWalks        \* seven walks over the tables, rotated over types
       /\ zK = 0
       /\ zT = Types[1 + ((zC + Seed) % 14)]
       /\ zB = Brands[1 + (zC % 3)]
       /\ zReg = WalkReg(((zC - 10001) % NWalks) + 1)
       /\ zOps = <<[op |-> "new", e |-> zReg, v |-> [n |-> 3, e |-> 0]]>>

Random ==
    /\ zC <= NChains /\ zK < ChainLen
    /\ LET h == H(<<Seed, zC, zK + 1, 50>>)
           o == Choose(Ops(zT), h)
           last == zK + 1 = ChainLen
           lim == IF last THEN 2 * Lim ELSE Lim
           op == [op |-> o, e |-> CASE o = "*q" -> Operand(zC, zK + 1, zReg, 1, lim)
                                    [] o = "/q" -> Operand(zC, zK + 1, zReg, -1, lim)
                                    [] OTHER -> zReg,
                  v |-> Value(zT, H(<<Seed, zC, zK + 1, 51>>), Pick(h \div 5, 24) = 0)]
       IN /\ zOps' = Append(zOps, op)
          /\ zReg' = CASE o = "*q" -> VAdd(zReg, op.e) [] o = "/q" -> VSub(zReg, op.e) [] o = "/l" -> VNeg(zReg) [] OTHER -> zReg
    /\ zK' = zK + 1 /\ UNCHANGED <<zC, zT, zB>>

(* walk j: every register exponent r meets a partner so that all results in    *)
(* -400..400 occur; one operation on the initial register                      *)
Walk ==
    /\ zC > 10000 /\ zK = 0
    /\ LET j == (zC - 10001) \div NWalks
           par(r) == CASE j = 0 -> r [] j = 1 -> (IF r < Lim THEN r + 1 ELSE r) [] j = 2 -> -r [] j = 3 -> (IF r > -Lim THEN -r + 1 ELSE -r)
                       [] j = 4 -> 0 [] j = 5 -> Between(H(<<Seed, zC, r + 300>>), -Lim, Lim) [] j = 6 -> Between(H(<<Seed, zC, r + 300>>), -Lim, Lim)
           o == CASE j \in {0, 1, 5} -> "*q" [] j \in {2, 3, 6} -> "/q" [] j = 4 -> "/l"
           e == [i \in 1 .. 12 |-> par(zReg[i])]
       IN /\ zOps' = Append(zOps, [op |-> o, e |-> e, v |-> [n |-> 2, e |-> 0]])
          /\ zReg' = zReg
    /\ zK' = zK + 1 /\ UNCHANGED <<zC, zT, zB>>

Next == /\ (Random \/ Walk)
        /\ (~(zC > 10000 \/ zK' = ChainLen) \/ PrintT("@@" \o ToJson([c |-> zC, t |-> zT, b |-> zB, ops |-> zOps'])))
=============================================================================
