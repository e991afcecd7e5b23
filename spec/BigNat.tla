------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as little-endian sequences of limbs in base   *)
(* 1000 without trailing (most significant) zero limbs; <<>> is zero.  TLC's   *)
(* integers are 32 bits wide, so every number the specification reasons about  *)
(* that may exceed them (stored numbers, conversion factors, powers) lives     *)
(* here.  Base 1000: a column sum of n limb products is below n*10^6, which    *)
(* stays inside 32 bits for n <= 2000.                                         *)
(* java/BigNat.java overrides the operators by the same functions on          *)
(* BigInteger, for speed only; BigNatSelf checks that both agree.              *)
EXTENDS Naturals, Integers, Sequences

LOCAL B == 1000

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

(* value of limb i, 0 beyond the end *)
LOCAL At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BFromNat(_)
BFromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BFromNat(n \div B)

LOCAL Max(x, y) == IF x >= y THEN x ELSE y
LOCAL Min(x, y) == IF x <= y THEN x ELSE y

(* normalise a sequence of column values (each < 2^31 - 10^6) *)
RECURSIVE BCarryFrom(_, _, _, _)
BCarryFrom(cols, i, carry, acc) ==
    IF i > Len(cols)
    THEN IF carry = 0 THEN acc ELSE BCarryFrom(cols, i, carry \div B, Append(acc, carry % B))
    ELSE LET v == cols[i] + carry
         IN  BCarryFrom(cols, i + 1, v \div B, Append(acc, v % B))
BNorm(cols) == BTrim(BCarryFrom(cols, 1, 0, <<>>))

BAdd(a, b) == BNorm([i \in 1 .. Max(Len(a), Len(b)) |-> At(a, i) + At(b, i)])

RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, hi) ==
    IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1, hi)

BMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE BNorm([k \in 1 .. Len(a) + Len(b) - 1 |->
                  ColSum(a, b, k, Max(1, k + 1 - Len(b)), Min(k, Len(a)))])

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
(* -1, 0 or 1 *)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0

RECURSIVE BorrowFrom(_, _, _, _, _)
BorrowFrom(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET v == a[i] - At(b, i) - borrow
         IN  IF v < 0 THEN BorrowFrom(a, b, i + 1, 1, Append(acc, v + B))
                      ELSE BorrowFrom(a, b, i + 1, 0, Append(acc, v))
(* a - b, for b <= a *)
BSub(a, b) == BTrim(BorrowFrom(a, b, 1, 0, <<>>))
BDiff(a, b) == IF BLe(b, a) THEN BSub(a, b) ELSE BSub(b, a)

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>>
              ELSE IF n = 1 THEN a
              ELSE LET h == BPow(a, n \div 2)
                       s == BMul(h, h)
                   IN IF n % 2 = 0 THEN s ELSE BMul(s, a)

BSmall(n) == BFromNat(n)

(* long division: quotient and remainder, one limb at a time; the limb of the  *)
(* quotient is found by bisection                                              *)
RECURSIVE QLimb(_, _, _, _)
QLimb(r, d, lo, hi) ==      \* largest q in lo..hi with q*d <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF BLe(BMul(d, BSmall(m)), r) THEN QLimb(r, d, m, hi) ELSE QLimb(r, d, lo, m - 1)

RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, d, i, r, q) ==
    IF i = 0 THEN [q |-> BTrim(q), r |-> r]
    ELSE LET r1 == BTrim(<<a[i]>> \o r)
             ql == IF BLt(r1, d) THEN 0 ELSE QLimb(r1, d, 0, B - 1)
             r2 == IF ql = 0 THEN r1 ELSE BSub(r1, BMul(d, BSmall(ql)))
         IN DivFrom(a, d, i - 1, r2, <<ql>> \o q)
BDivMod(a, d) == DivFrom(a, d, Len(a), <<>>, <<>>)
BDiv(a, d) == BDivMod(a, d).q
BMod(a, d) == BDivMod(a, d).r

RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = <<>> THEN a ELSE BGcd(b, BMod(a, b))

(* digits written most significant group first, three digits a group *)
Big(gs) == BTrim([i \in 1 .. Len(gs) |-> gs[Len(gs) + 1 - i]])
=============================================================================
