-------------------------------- MODULE Rand --------------------------------
(* Reproducible choices: H(<<..numbers..>>) is a number in 0..1048572 that     *)
(* depends on every component; Pick(h, n) a number in 0..n-1.                  *)
EXTENDS Naturals, Integers, Sequences
LOCAL P == 1048573
LOCAL Mix(x) == LET y == (x * 2039 + 12289) % P
                    z == y % 32768
                    w == (z * z + (y \div 32)) % P
                    v == (w * 1021 + y) % P
                    u == v % 30011
                IN (u * u + w) % P
RECURSIVE HFrom(_, _, _)
HFrom(s, i, acc) == IF i > Len(s) THEN Mix(acc) ELSE HFrom(s, i + 1, (Mix(acc) + s[i] * 1009 + i * 97) % P)
H(s) == HFrom(s, 1, 0)
Pick(h, n) == (h \div 3) % n
Choose(s, h) == s[1 + Pick(h, Len(s))]
Between(h, lo, hi) == lo + Pick(h, hi - lo + 1)
=============================================================================
